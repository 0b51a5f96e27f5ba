#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the wording is reviewed in one place).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Lexing leaves the lexer unchanged",
  "Lexing any text, valid or not, changes nothing in the lexer it runs on and nothing at package level, and hands back lexemes that belong to the caller alone. So a lexer gives the same answer to the same text whatever it lexed before, editing a returned lexeme never affects the lexer, and one lexer can be shared by concurrent goroutines without a data race.",
  ["inputs","histories","schedules"],"every lexer definition, every input text, every history of earlier lexings and every interleaving of concurrent ones",
  "The tests lex a few strings once with a fresh lexer; none lexes twice after an error, adds a rule after lexing, or lexes concurrently.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","symbol/setsymbol/set.go"],
  [("Lex builds all working state in a fresh operation object","lexer/simplelexer/lexer.go Lex, lexer/stacklexer/lex.go Lex")],
  [("rules, set, insert","definition of the lexer, fixed after construction","Lexer / StackLexer")],["Lexer.Lex"])
p("C02","Parsing leaves the parser, its grammar and the lexemes unchanged",
  "Parsing any sequence of lexemes changes nothing in the parser, in the grammar it was built from, in the lexemes it is given or at package level, and the tree it returns shares no node and no lexeme with them. So one parser can be reused and shared by concurrent goroutines, and editing a returned tree never changes the lexemes or a later parse.",
  ["inputs","histories","schedules"],"every grammar, every lexeme sequence, every history of earlier parses and every interleaving of concurrent ones",
  "The tests parse one sequence per parser and look only at the printed tree.",
  ["parser/packrat/packrat.go","parser/topdown/topdown.go","symbol/setsymbol/set.go"],
  [("per-parse symbol set, memo tables and lexeme copies","packrat.Parse / topdown.Parse, Set.LoadLexemes")],None,["Parser.Parse"])
p("C03","Reducing or cloning a tree never touches the original",
  "Reducing a parse tree, with any set of the library's reductions, and cloning one leave every node, child list and lexeme of the tree they are given as it was, change neither the reducer nor package-level state, and return a tree that shares no node, child list or lexeme with the original.",
  ["inputs","histories"],"every input tree, every reducer built from the library's reductions, every later edit of the result",
  "The tests compare the printed result only; none inspects the input tree after the call or edits the result.",
  ["tree/reducer.go","tree/parsetree.go","tree/node_reductions.go","tree/chain_reductions.go","lexeme/lexeme.go"],
  [("copy node and lexeme before reducing","tree/reducer.go RawReduce"),("deep copy","tree/parsetree.go Clone")],None,["Reducer.Reduce","Reducer.RawReduce","tree.Clone"])
p("C04","Queries and transformations never change the grammar they are given",
  "Looking up the productions of any symbol (known to the grammar or not), listing or editing the list of non-terminals, printing a grammar, testing it for left recursion, removing left recursion from it, analysing it, querying the analysis, and building a parser on it all leave the grammar, the analysis and package-level state exactly as they were. So grammars and analyses can be shared by concurrent readers.",
  ["inputs","histories","schedules"],"every grammar, every symbol asked for, every order and interleaving of queries",
  "The tests query known symbols once and never look at the grammar afterwards.",
  ["grammar/grammar.go","grammar/left_recursion.go","leftrecursion.go","analyze/analysis.go","symbol/setsymbol/set.go"],
  [("lookups that do not insert","Grammar.Productions"),("non-terminals are copied out","Grammar.NonTerminals"),("transformations work on a fresh set and a fresh grammar","RemoveLeftRecursion, Analyze")],None,
  ["Grammar.Productions","Grammar.NonTerminals","IsLeftRecursive","RemoveLeftRecursion","Analyze"])
p("C05","Results depend only on the inputs, never on map order or ambient state",
  "Constructing lexers, grammars, parsers and reducers and using them gives the same result every time for the same arguments: nothing the library returns depends on the iteration order of a map, on the clock, on randomness, on the environment, on goroutine scheduling, or on package-level state changed by an earlier call.",
  ["inputs","histories","schedules"],"every definition and input, every process, every map iteration order",
  "A test run sees one random map order per run and a tie that depends on it may show once in many runs.",
  ["lexer/stacklexer/construct.go","grammar/regexgram/regexgram.go","tree/reducer.go"],
  [("definitions are processed in written order","stacklexer.New"),("map loops only write entries keyed by their own key","tree.Merge, regexgram evalGrammar")],None,["all constructors and operations"])
p("C06","Every lexer halts on every text and reads only inside it",
  "For every lexer definition and every text, lexing comes to an end after a number of steps bounded by the text and the sub-lexer stack: each step consumes at least one byte of the text or leaves a sub-lexer. While doing so it never indexes or slices outside the text, the regular-expression match or the sub-lexer stack.",
  ["inputs","configurations"],"all definitions (including rules that can match the empty string, pop more levels than were pushed, or name capture groups that took no part in the match) and all texts",
  "The tests lex about a dozen well-behaved strings.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],
  [("an empty match is treated as no match","Lex / lex loops"),("stack depth and match bounds are clamped","stacklexer pop, findNextMatch")],
  [("cur","number of bytes consumed","lexOp"),("stack","suspended sub-lexers","stacklexer lexOp")],["Lexer.Lex"])
p("C07","Lexing loses no text",
  "Reading the returned lexemes in order accounts for every byte of the text exactly once and in order: each stretch is either the text of an ordinary lexeme, text matched by a rule marked as discarded, or text of an error lexeme, and text that no rule matches is never dropped silently. The only other lexemes are the configured start and end markers, and a rule that rewrites its value from capture groups still accounts for its whole match.",
  ["inputs","configurations"],"all definitions and all texts",
  "The tests check the values of a few short inputs; dropped or doubled text needs a particular arrangement of errors, discards and sub-lexer changes.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],
  [("error text is collected and flushed before the next lexeme and at the end","checkError / setError / consumeRemainingAsError")],None,["Lexer.Lex"])
p("C08","Competing lexer rules are resolved by the selected policy",
  "When several rules match at the same position, the default policy takes the longest match and, among equally long ones, the rule defined first; the priority policy takes the rule defined first and looks at length only between rules of equal priority. Under either policy a non-empty match is always preferred to reporting an error, and selecting a policy affects exactly that choice.",
  ["inputs","configurations"],"all sets of matching rules, lengths and definition orders, in both lexers and both modes",
  "The comparison is on four integers; the tests exercise one ordering of the default policy and, for one lexer only, one of the other.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","lexer/stacklexer/construct.go"],
  [("pairwise comparison folded over all matches","compare functions and findNextMatch")],None,["Lexer.Lex","ByLength","ByPriority"])
p("C09","A run stops at the first failing stage and says which one",
  "Running an input lexes it once, checks every lexeme for an error, then parses once, then applies every non-nil reducer in the given order, each to the result of the one before. If lexing yields nothing, a lexeme is an error, parsing yields nothing or a reducer yields nothing, no later stage runs and the result is nil together with, respectively, the could-not-lex error, the first lexing error, the could-not-parse error or the could-not-reduce error; otherwise the result is the last tree, non-nil, with a nil error. A stored runner behaves exactly like the direct call with the parts it was built from.",
  ["inputs","programs"],"all lexers, parsers, reducer lists (including nil entries) and inputs",
  "No test of the core package runs a pipeline; the examples exercise success and two failures.",
  ["parlex.go","helpers.go","errors.go"],
  [("early return per stage","parlex.Run"),("error lexemes are collected over the whole list","parlex.LexErrors")],None,["parlex.Run","Runner.Run"])
p("C10","Constructors report every error, and give a value or an error, never both",
  "Every constructor that can fail (lexers, grammars, regular-expression grammars, text reducers, trees from text, the top-down parser) returns either a usable value with a nil error or no value with a non-nil error, and whenever a step of the construction reports an error (a bad regular expression, a duplicate rule, a malformed line, cyclic inheritance, a left-recursive grammar) the caller receives an error. The must-style wrappers panic exactly when given an error and otherwise pass the value through; nothing else in the library panics on purpose.",
  ["inputs"],"all definition texts, and every point at which a construction step can fail",
  "The tests feed mostly well-formed definitions; a swallowed error needs the one definition that triggers it.",
  ["lexer/simplelexer/construct.go","lexer/stacklexer/construct.go","grammar/grammar.go","grammar/regexgram/regexgram.go","tree/reducer/reducer.go","tree/parsetree.go","parser/topdown/topdown.go","helpers.go"],
  [("errors are returned up the construction call chain","New functions and their helpers")],None,["New","Parse","Must*"])
p("C11","Absence is reported as a plain nil",
  "Whenever a library function or method that returns one of the library's interfaces has nothing to return (no parse, no parent, no such child, not a non-terminal, index out of range, nothing to reduce), the result compares equal to nil; it is never a non-nil interface wrapped around a nil pointer.",
  ["inputs"],"all calls of the exported API with interface results",
  "Assertions on printed trees or testify's Nil treat a wrapped nil pointer as nil; only an explicit comparison shows the difference.",
  ["tree/parsetree.go","tree/reducer.go","parser/packrat/packrat.go","parser/topdown/topdown.go","grammar/grammar.go","symbol/setsymbol/set.go","symbol/stringsymbol/symbol.go"],
  [("explicit nil returns before converting a pointer to an interface","Parse, Reduce, Productions, Parent, Child")],None,["exported functions with interface results"])
p("C12","Tree edits act on exactly the addressed child, or do nothing",
  "For every node and every integer index, a non-negative index addresses that child and a negative one counts back from the end; an index outside the children makes the operation report failure where it can and leave the node unchanged, and no index makes it panic. For an index inside, removing a child removes only that child, promoting a child's children splices them in its place, promoting a child takes over its lexeme and splices its children in its place, promoting a child's value takes over its value and position and removes it, replacing with a child takes over its lexeme and children, and looking up a child returns it, with all other children kept in order.",
  ["inputs"],"all trees, all integer indexes",
  "The tests use small trees and a handful of valid indexes.",
  ["tree/node_reductions.go","tree/parsetree.go"],
  [("index normalisation","PN.GetIdx"),("slice splicing","PN.RemoveChild, PromoteChildrenOf, PromoteChild, PromoteChildValue, ReplaceWithChild, Child")],None,["PN methods"])
p("C13","Parent links agree with child links",
  "In every tree the library hands out (parsed, read from text, cloned or reduced) each child's parent is the node that lists it and the root has no parent; and every editing operation on a node keeps this so for that node and its children.",
  ["inputs","histories"],"all grammars and inputs, all trees, all sequences of edits",
  "The tests compare printed trees, and printing never follows a parent link.",
  ["tree/parsetree.go","tree/reducer.go","tree/node_reductions.go","parser/packrat/packrat.go","parser/topdown/topdown.go"],
  [("parent assigned wherever a child list is built or spliced","PN methods, New, Clone, RawReduce, toPN")],None,["ParseNode.Parent"])
p("C14","Composed reductions run every step once, in order",
  "The function form and the chained form of every reduction apply the node operation of the same name, with the same arguments, exactly once; a chained form first applies everything before it in the chain. A conditional applies its first branch exactly when there is a condition and it holds and otherwise the second, a nil step is skipped, and a merged reducer applies, for each symbol, the first reducer's reduction and then the second's.",
  ["inputs","programs"],"all reductions, arguments, chains and nodes",
  "The tests chain a few reductions on one tree each.",
  ["tree/chain_reductions.go","tree/reducer.go"],
  [("closures composed by Chain","tree/chain_reductions.go"),("Merge","tree/reducer.go")],None,["tree.Reduction","tree.Merge"])
p("C15","A parser accepts only if the start symbol covers the whole input",
  "Both parsers return a tree only when a derivation was actually found from the grammar's first non-terminal that begins at the first lexeme and ends at the last, with none left over; with no lexemes at all that means the start symbol derives the empty sequence. In every other case the result is nil.",
  ["inputs"],"all grammars and lexeme sequences, including the empty one",
  "The tests contain almost no input that must be rejected, and none that is empty.",
  ["parser/packrat/packrat.go","parser/topdown/topdown.go"],
  [("acceptance test against the number of lexemes","packrat.Parse, topdown.tryAccept")],None,["Parser.Parse"])
# ---- not applicable
p("C16","The parsers recognise exactly the grammar's language",
  "For every grammar, the packrat parser (and the top-down parser within the limits of ordered choice) returns a tree exactly when the lexemes belong to the language, and the tree's nodes spell productions of the grammar and its leaves the lexemes in order.",
  ["inputs","programs"],"all grammars and lexeme sequences","Language membership quantifies over all derivations; the tests parse about ten sentences.",
  ["parser/packrat/packrat.go","parser/topdown/topdown.go"],[("memoised work list","packrat.go")])
p("C17","Ambiguity is resolved by production order",
  "When a lexeme sequence has several derivations, the packrat parser returns the one that prefers earlier productions at the root, then at the leftmost differing child.",
  ["inputs"],"all ambiguous grammars and inputs","The preferred tree is a property of the set of all derivations.",
  ["parser/packrat/packrat.go"],[("comparePriority","packrat.go")])
p("C18","Left-recursion removal preserves the language and always finishes",
  "Removing left recursion from any grammar terminates and gives a grammar of the same language that is not left recursive.",
  ["inputs"],"all grammars","Language equality of two runtime grammars; the tests transform two.",
  ["grammar/left_recursion.go"],[("substitution and direct removal","left_recursion.go")])
p("C19","The left-recursion test is exact",
  "A grammar is reported left recursive exactly when some non-terminal can derive a sentential form beginning with itself, hidden recursion behind empty productions included.",
  ["inputs"],"all grammars","A closure property of the runtime grammar.",
  ["leftrecursion.go"],[("depth-first search","leftrecursion.go")])
p("C20","First-set analysis is exact",
  "A terminal is reported as a possible first symbol of a non-terminal exactly when some derivation of the non-terminal begins with it.",
  ["inputs"],"all grammars, recursive ones included","A fixed point over the runtime grammar.",
  ["analyze/analysis.go"],[("firsts","analysis.go")])
p("C21","Regular-expression operators in grammars mean what they say",
  "A grammar written with ?, * and | together with its reducer yields the same trees as the expanded grammar with repetition helpers flattened.",
  ["inputs","programs"],"all grammar texts and inputs","Equivalence of generated grammars.",
  ["grammar/regexgram/regexgram.go"],[("evalSymbol, bludgeon","regexgram.go")])
p("C22","Printed grammars, lexers and trees can be read back",
  "Reading back the printed form of a grammar, lexer or tree gives an equal one.",
  ["inputs"],"all grammars, lexers, trees and values","Round-trip equality over strings.",
  ["grammar/grammar.go","lexer/simplelexer/construct.go","tree/parsetree.go"],[("String / New","...")])
p("C23","Lexeme positions are exact",
  "Every lexeme reports the line and column at which its text starts.",
  ["inputs"],"all texts","Counting over strings; the tests check one text per lexer.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],[("handleLineCol","lex.go")])
p("C24","The example calculators and formatter compute correct results",
  "The math example, the stack calculator and the JSON formatter give the documented value for every expression.",
  ["inputs"],"all expressions","Numerical results.",
  ["examples/parlexmath/math.go","examples/scalc/scalc.go","examples/parlexjson/json.go"],[("eval functions","examples")])
p("C25","Packrat parsing finishes in polynomial time",
  "Packrat parsing terminates for every grammar and input, with time and memory polynomial in the input.",
  ["inputs"],"all grammars and inputs","Termination and cost of a work-list algorithm over runtime data.",
  ["parser/packrat/packrat.go"],[("queued / memo guards","packrat.go")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
