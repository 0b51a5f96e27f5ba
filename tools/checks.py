HEAP="context- and field-sensitive points-to and effect analysis over SSA"
TRUST=" Trusts go/types and go/ssa, the documented behaviour of the standard library, and that caller-supplied implementations do not write what they are handed."
CHECKS={
"C01":(HEAP,"Over-approximates every write reachable from Lex for every lexer definition and text; a pass shows that no such write reaches the lexer or package state and that returned lexemes are fresh."+TRUST),
"C02":(HEAP,"As C01, for Parse of both parsers: no write reaches parser, grammar, lexemes or package state, and the tree is built from fresh memory only."+TRUST),
"C03":(HEAP,"As C01, for Reduce, RawReduce, Can and Clone; reductions held in a reducer are any function of that signature in the module."+TRUST),
"C04":(HEAP,"As C01, for every exported query and transformation of grammars, productions, symbols and analyses."+TRUST),
"C05":("order-sensitivity dataflow of every map iteration, ambient-source lint, and points-to effects on package variables","Every map iteration in the library is shown insensitive to order, no ambient source is called, and no exported function writes package state."+TRUST),
"C09":("abstract interpretation (symbolic heap, linear relations, fixpoints at loops) of Run, New and Runner.Run against an event automaton","Run is interpreted for every lexer, parser, list of reducers and input; one arbitrary lexeme and one arbitrary reducer are tracked by symbolic index, so the result holds for lists of any length."+TRUST),
"C11":("interprocedural nilness dataflow over SSA, with abstract interpretation of the lookups","Every pointer-to-interface conversion that reaches a return of the library is shown to convert a non-nil pointer, and each lookup is interpreted for every out-of-range argument and must answer nil."+TRUST),
"C14":("abstract interpretation of every combinator, function form and chained form against an event specification","Each combinator is interpreted with unknown reductions, conditions and arguments, for every nilness of its parts; Merge follows one arbitrary symbol through the maps, so the result holds for reducers of any size."+TRUST),
"C12":("abstract interpretation of every node operation against a list specification at one arbitrary position","Every operation is interpreted on an arbitrary node with an arbitrary index (inside or outside, from the front or the back); the resulting child list, whatever its length, is compared with the specified one at one arbitrary position, and every index and slice expression must stay inside."+TRUST),
"C13":("abstract interpretation tracking one arbitrary node's parent link through every edit and tree builder, plus an SSA rule for trees read from text","Every editing operation is interpreted on an arbitrary node with one arbitrary child or grandchild tracked by symbolic index; Clone, RawReduce and the packrat tree builder are shown by induction over their own recursive calls, the K-th of which is tracked."+TRUST),
"C10":("interprocedural path-sensitive error/nilness dataflow with function summaries; abstract interpretation of the duplicate-rule and cyclic-inheritance tests; control-dependence rule for brace nesting","Every path of every exported constructor is covered by summaries computed to a fixpoint: an error reported by any step (regular expressions, module functions, interface calls, the left-recursion test, a line with several arrows, a line not matched as a whole) ends in a non-nil error with nil values, success ends in non-nil values; the must-style wrappers panic exactly then. An error kept in a data structure the analysis does not follow is left undecided, never alarmed on. Whether the left-recursion test itself is exact is not part of this property."+TRUST),
"C15":("modular abstract interpretation with contracts for the recursive functions: a derivation relation tracked through memo, work lists and partial productions by arbitrary index","Both parsers are interpreted for an opaque grammar of any size and any number of lexemes. The top-down acceptance is shown by induction over its own recursive calls; every entry the packrat parser makes in its memo, waiting lists and work stack is shown to satisfy an invariant (children derive the first symbols of a production of the symbol over adjoining stretches, at one arbitrary position), and a tree is returned only when D(first non-terminal, 0, number of lexemes) follows. Completeness (that every derivable input is accepted) is not part of it."+TRUST),
"C06":("abstract interpretation of Lex with stretches of text and regexp matches as objects; lexicographic ranking of every loop","Both lexers are interpreted for an arbitrary definition and text. Every index and slice of the text, of a match and of the sub-lexer stack is shown to lie inside; for every loop a lexicographic measure (position up, stack down, counters up to a bound fixed before the loop) is found that moves at every turn."+TRUST),
"C07":("abstract interpretation of Lex with stretches of text as values and a ghost integer for the text accounted for","Both lexers are interpreted for an arbitrary definition and an empty or arbitrary non-empty text. A ghost integer says how much of the text the lexemes returned and the matches of discarded rules account for: every lexeme appended has to hold a stretch that starts there (or rewrite a match that starts there), a discarded match has to lie there, no turn of a loop may give the place up, and at every return it is the length of the text. Trusted: the field that marks a rule as discarded keeps its name; a start or end marker is a string of the lexer."+TRUST),
"C08":("abstract interpretation of the policy functions, of their selection and of the ranking of rules; SSA dataflow of the choice among matches","Every policy function is interpreted for every order of its four integers and compared with the specification; ByLength/ByPriority are interpreted on an arbitrary lexer; a newly defined rule is shown to rank after all earlier ones. The loop over the matches is judged by dataflow (same rule's end and priority, winner kept, no early end, no rule left out); the methods that renew the table of matches are interpreted on tables of one and two arbitrary matches: none that starts before the position may stay."+TRUST),
}
NA={
"C16":"Language equality quantifies over runtime grammars and derivations: the control flow is driven by grammar data, which no static argument in reach can relate to the set of derivations.",
"C17":"Needs the ordering of derivations of an arbitrary runtime grammar; memo replacement order is data driven.",
"C18":"Does not hold (RemoveLeftRecursion recurses for ever on some grammars) and termination/language preservation depend on the runtime grammar; a repair would be a redesign, not a small patch.",
"C19":"A closure property of the runtime grammar; static analysis of the code sees only a generic depth-first search.",
"C20":"A fixed point over the runtime grammar; static analysis of the code cannot compare it with the derivations.",
"C21":"Equivalence of generated grammars and trees over all grammar texts; depends on string and grammar data.",
"C22":"Round trips of formatted strings through regular expressions; needs string reasoning over unbounded values.",
"C23":"Exact line and column need counting line breaks in arbitrary text; no static domain in reach relates strings.Count/LastIndex to positions.",
"C24":"Numerical and formatting results of the example programs for arbitrary expressions.",
"C25":"Termination measure and cost of a work-list algorithm over runtime grammar data.",
}
