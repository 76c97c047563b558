#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na))

AI = "abstract interpretation of the Go SSA form (affine relations, symbolic heap, ghost-state monitor)"
TB = "Trusted: go/types, x/tools go/ssa, the analyser's transfer functions and its models of the standard library. "
T = "tests sample a handful of grammars and inputs; the guarantee is over every operand behaviour, count and nesting"

p("C01", "A sequence matches its elements in order and honours the fail-fast mark",
  "A sequence tries its elements one after another, each exactly where the previous one stopped, and on success reports the sum of what they consumed. The first element that fails decides the sequence: its error is returned with the position where it failed, and no later element is tried. If the failing element comes after a '!' mark anywhere earlier in the sequence, the whole match is aborted (panics with the error) instead.",
  ["programs", "inputs"], "every number of elements, every placement of '!' marks, every behaviour of the elements (match any number of tokens, fail at any position, abort)", T,
  ["tpl/grammar.go"], [("And", "tpl/grammar.go: And and its Match")],
  AI, TB + "Decides the combinator for arbitrary operands; operands are assumed to report between 0 and all remaining tokens (C12 decides that they do).")
p("C02", "A choice takes the first alternative that matches",
  "A choice tries its alternatives in order at the same position and its result is that of the first one that matches; no further alternative is tried. It fails only when all alternatives failed, reporting the furthest failure position; when exactly one alternative reached that position, its error is the one returned.",
  ["programs", "inputs"], "every number of alternatives and every behaviour of each", T,
  ["tpl/grammar.go"], [("Or", "tpl/grammar.go: Or and its Match")], AI, TB + "Alternatives are assumed non-nil.")
p("C03", "Repetition, option and list are greedy and report exactly what they consumed",
  "*G, +G, ?G, G1 % G2 and G1 %= G2 match greedily: they go on until an element (or a separator followed by an element) fails or matches nothing, never try again after a failure, and report exactly the tokens of the completed elements - a separator that is not followed by an element is not consumed. *G, ?G and G1 %= G2 never fail; +G and G1 % G2 fail exactly when the first element fails, with its error and position.",
  ["programs", "inputs"], "every operand behaviour and every number of repetitions", T,
  ["tpl/grammar.go"], [("Repeat0, Repeat1, Repeat01, List, List0", "tpl/grammar.go")], AI, TB)
p("C04", "Repetitions terminate even when their element matches nothing",
  "Matching *G, +G, G1 % G2 or G1 %= G2 always terminates when the operands do: once a repeated element matches without consuming a token, the repetition ends instead of trying it again forever.",
  ["programs", "inputs"], "every operand, including ones that match without consuming (options, lookaheads, the empty grammar)", "a test would have to hang to notice; the existing tests never repeat an element that can be empty",
  ["tpl/grammar.go"], [("Repeat0, List", "tpl/grammar.go: loops of Match")], AI + ": progress rule", TB)
p("C05", "Match counts are exact",
  "After a repetition, option or list matched, the length it reports to actions is the number of elements it matched in that match (0 or 1 for an option), even when the same grammar is matched recursively inside its own elements. Sequences and choices report their number of operands, actions and transactions the length of the grammar they wrap, and grammars without elements report -1.",
  ["programs", "inputs", "histories"], "every operand behaviour, re-entrant use and any earlier matches", T + "; re-entrant matches of one grammar object are not tested",
  ["tpl/grammar.go"], [("Len", "tpl/grammar.go: Len methods and the stores to their fields in Match")], AI, TB)
p("C06", "Lookahead consumes nothing",
  "@G matches exactly when G matches at the current position, and ~G exactly when G does not; each tries G once there and both always report zero consumed tokens, whatever G consumed.",
  ["programs", "inputs"], "every operand behaviour", T, ["tpl/grammar.go"], [("Peek, Not", "tpl/grammar.go")], AI, TB)
p("C07", "Terminals, variables and named rules match exactly what they name",
  "A token grammar consumes exactly one token and only of its kind - a FLOAT also accepts an INT, nothing else is converted - and fails without consuming otherwise, also at the end of the input; EOF matches only the end, and '1' always matches nothing. A rule variable can be assigned only once: it fails while unassigned and afterwards behaves as the assigned grammar, as a named rule behaves as its grammar.",
  ["programs", "inputs"], "every token kind, input and operand", T, ["tpl/grammar.go"], [("Gr, GrEOF, GrTrue, Var, Named", "tpl/grammar.go")], AI, TB)
p("C08", "Actions and transactions run exactly once and only when they should",
  "The action of a grammar runs exactly once for each successful match, after the match, with exactly the tokens it matched and the grammar that matched them, and never when the grammar fails. A transaction begins exactly once before its grammar is tried and, unless the match is aborted, ends exactly once afterwards with the value its begin returned and with the grammar's error (nil on success); neither changes the verdict or the consumed count.",
  ["programs", "inputs"], "every wrapped grammar behaviour", T, ["tpl/grammar.go"], [("Action, Transaction", "tpl/grammar.go")], AI, TB)
p("C09", "Exact matching accepts exactly the inputs that are consumed completely",
  "Matching a source exactly (also through evaluation of a whole source or of a named sub-rule) succeeds if and only if the grammar matches and consumes every token; a failure of the grammar is returned unchanged and left-over tokens are an error. The non-exact match returns exactly the tokens that were not consumed.",
  ["programs", "inputs"], "every source, grammar behaviour and kind of source (text or tokens)", "tests use inputs that match; partial consumption at every position cannot be enumerated",
  ["tpl/match.go", "tpl/compiler.go"], [("Match, MatchExactly, Eval, EvalSub", "tpl/match.go, tpl/compiler.go")], AI, TB)
p("C10", "Every run starts from a clean state",
  "Each match of a source first initialises the scanner with that source and runs the init hook exactly once before the grammar is tried; the scanner's initialisation overwrites all of its scanning state. So the result of a match does not depend on earlier matches with the same compiled grammar, including ones that failed or were aborted.",
  ["histories", "inputs"], "every earlier history of a matcher and a scanner", "tests use a matcher mostly once",
  ["tpl/match.go", "tpl/compiler.go", "tpl/scanner.go"], [("Match, EvalSub, Scanner.Init", "tpl/match.go, tpl/compiler.go, tpl/scanner.go")], AI, TB)
p("C11", "Tokenising keeps every token in order and reports every lexical error",
  "The grammar is matched against all tokens of the source, in order, up to the end of the source, with the end-of-file token kept just past the end of the token slice. When the scanner reports an error, at initialisation or at any token, the match fails with an error carrying that message and position, and neither the init hook nor the grammar runs.",
  ["inputs"], "every sequence of scanner results and error reports", "tests contain no lexical errors",
  ["tpl/match.go"], [("Tokenize", "tpl/match.go")], AI, TB)
p("C12", "Error reports never panic and failure positions stay inside the input",
  "Every grammar reports a consumed count or failure position between 0 and the number of tokens it was given, and the error it creates points into those tokens. Rendering such an error never panics, wherever in the input the failure is, including its very end and an empty input.",
  ["inputs", "programs"], "every input length, failure position and source text", "tests rarely render an error and never at the end of the input",
  ["tpl/grammar.go"], [("MatchError.Error", "tpl/grammar.go: Error, calcErrorInfo, nextLines")], AI, TB + "Assumes that token positions grow along the token slice and lie in the source (S02) and that grammar rendering does not panic.")
p("C13", "The compiler maps every operator of the rule language to its combinator",
  "In the rule language, juxtaposition, '|', prefix '*', '+', '?', '~', '@', infix '%' and '%=', '/mark', '!', parentheses, '1', 'true', quoted literals, token names and rule names compile to the corresponding combinator applied to exactly its operands in source order. Prefix operators bind tighter than '%', '%=' and '/', which are left-associative and bind tighter than juxtaposition, which binds tighter than '|'.",
  ["programs"], "every rule text: operators, operand counts and nesting", "tests compile a few grammars; operand order and stack depth vary with every text",
  ["tpl/compiler.go"], [("Compiler.Cl", "tpl/compiler.go")], AI + " of the compile actions and structural comparison of the rule-language grammar", TB)
p("C14", "The compiler rejects ill-formed grammars",
  "Compilation never succeeds for a rule text that does not parse completely, has no rule named doc, defines a rule twice, leaves a rule that is referenced undefined, or uses an unknown token name or literal.",
  ["programs"], "every rule text", "tests compile only valid grammars",
  ["tpl/compiler.go"], [("Compiler.Cl", "tpl/compiler.go")], AI, TB)
p("C15", "Rendered grammar code reads as the same grammar",
  "The rule text that Code, Matcher.Code and the Marshal methods render for a grammar (also in the messages of match errors) reads as that grammar: every operand once and in order, the operator of its combinator, tokens as the scanner spells them (Ttol), rules and variables by their names, and parentheses where an operand would otherwise be read as part of something else: a choice in a sequence, a sequence or a list as the operand of a prefix operator or list, a list on the right of a list, a sequence with a cut inside a sequence, + directly behind +. Actions and transactions do not show. Groups of a single operand, of a sequence in a sequence (without cut) and of a choice in a choice may be gone.",
  ["programs"], "every grammar structure, up to the nesting enumerated", "tests render one or two grammars", ["tpl/grammar.go", "tpl/match.go"], [("Marshal methods, Code", "tpl/grammar.go"), ("Matcher.Code", "tpl/match.go")], "abstract interpretation of the constructors and Marshal methods on every grammar tree up to a bound; the texts are read by an independent reader of rule texts and compared with the trees", "Bounds: every combinator over every combinator at every position (two levels; three for combinators of at most two operands, for all in thorough). That tokens are spelled so that they are found again is S06 and S08.")
S = "tests scan a few fixed texts; the guarantee is over every byte sequence"
SX = "explicit-state exploration of an abstract machine derived from the SSA form (all source texts at once)"
STB = "Trusted: go/types, x/tools go/ssa, the abstract transfer functions, the lexical grammar written down in sa/scan.go. The state space is finite and explored completely (4 scan modes, with and without error handler); a run past its state limit is reported, not ignored."
p("S01", "Operators are scanned by longest match",
  "Every operator of the token table is recognised, scanning always takes the longest operator that the text starts with, and the token returned has the kind whose table spelling is exactly the text consumed.",
  ["inputs", "configurations"], "every text that starts with an operator, every scan mode", S, ["tpl/scanner.go", "tpl/token.go"], [("Scanner.Scan, operator table", "tpl/scanner.go, tpl/token.go")], SX, STB)
p("S02", "Token text and position are those of the source",
  "The literal of an identifier, number, character, string or comment token is exactly the source text it covers (carriage returns are dropped from raw strings and from // and /* comments), and its position is the offset where that text starts; an illegal token's text is the offending text; a token ends where its lexical class ends. Tokens are returned in source order without overlap, starting at the first character, or just behind a byte order mark at the very start.",
  ["inputs", "configurations"], "every source text and scan mode", S, ["tpl/scanner.go"], [("Scanner.Init, Scanner.Scan", "tpl/scanner.go")], SX, STB)
p("S03", "Semicolons are inserted exactly where a line ends a statement",
  "With semicolon insertion on, a newline (also one inside or behind comments) or the end of the source yields a semicolon token, once, exactly when the last token before it is an identifier, a basic literal, ++, --, ), ] or }; with it off no semicolon is ever invented, and none is pending when a source is started.",
  ["inputs", "configurations"], "every source text and scan mode", S, ["tpl/scanner.go"], [("insertSemi", "tpl/scanner.go")], SX, STB)
p("S04", "The scanner always makes progress",
  "Every loop of the scanner consumes a character on each turn, and every call that does not return end-of-file consumes at least one character or is the single pending inserted semicolon; so scanning any source terminates.",
  ["inputs", "configurations"], "every source text, including malformed and truncated ones", S, ["tpl/scanner.go"], [("Scanner loops", "tpl/scanner.go")], SX + ": no cycle without progress", STB)
p("S05", "Malformed lexemes are always reported",
  "An unterminated string, character literal or comment, an illegal escape, a character literal that is not one character, a malformed number, and an illegal character, NUL, byte order mark or UTF-8 encoding are each reported to the error handler; the scanner never returns an illegal or malformed token silently.",
  ["inputs", "configurations"], "every source text", S, ["tpl/scanner.go"], [("Scanner error reports", "tpl/scanner.go")], SX, STB)
p("S06", "Token tables are consistent",
  "Every operator and named token converts to its spelling and back to the same kind, no two kinds share a spelling, the length of an operator token is the length of its spelling, and an unknown spelling is illegal. The end of a token is its position plus the length of its literal, or of its operator spelling if it has none.",
  ["inputs"], "every token kind and spelling", "tests check a few kinds", ["tpl/token.go", "tpl/scanner.go"], [("tokens, Ltot, Ttol, TokenLen, End", "tpl/token.go, tpl/scanner.go")], AI + "; package tables are evaluated from their initialisers", TB)
p("S07", "Literals are classified by their form and nothing well-formed is an error",
  "A word is an identifier; digits are INT, with a fraction or exponent FLOAT, with a final i IMAG, with a leading 0 octal and with 0x hexadecimal; quoted texts are CHAR and STRING, comments COMMENT. Every literal form of these (that of Go before 1.13) is scanned as one token, and well-formed text is never reported as an error.",
  ["inputs", "configurations"], "every source text and scan mode", S, ["tpl/scanner.go"], [("scanNumber, scanEscape, scanRune, scanString", "tpl/scanner.go")], SX, STB)
p("S08", "Keywords are scanned as the kind they were registered with",
  "With the keyword scanner, each registered spelling gets its own kind above all other tokens, the same one whenever it is asked for and for every scan afterwards, also after the scanner is initialised again; the kind converts back to the spelling. Scanning returns that kind exactly for identifiers that are registered and leaves every other token as it is.",
  ["inputs", "histories"], "every sequence of registrations and scans", "tests register a few keywords", ["tpl/compiler.go"], [("AutoKwScanner", "tpl/compiler.go")], AI, TB)
I = "tests evaluate a few scripts; the guarantee is over every grammar, source and history"
p("S09", "Source text and lines that are reported belong to the tokens named",
  "The source text of a sequence of tokens is the part of the source from the position of its first token to the position of the token behind its last one; that of no tokens is nothing. Their file and line are the name of the source file and the line of the first one, empty and 0 for no tokens. A match error is rendered with the line of the token at which matching failed, and a run-time error with the file (if it has a name) and line of the first of its tokens. The engine's Source and FileLine yield the same, and nothing for nil.",
  ["inputs"], "every source and every part of its tokens", "the tests never look at a source text or line", ["tpl/grammar.go", "tpl/interpreter/interpreter.go"], [("Source, FileLine, (*MatchError).Error", "tpl/grammar.go"), ("(*RuntimeError).Error, (*Engine).Source, (*Engine).FileLine", "tpl/interpreter/interpreter.go")], AI + " on a symbolic source, position table and token list", TB + "go/token's File is modelled by uninterpreted Offset and Line. The words of the messages are not compared.")
p("I01", "Evaluating a nested source leaves the engine as it was",
  "When an action evaluates a source (EvalCode of the engine for Go and of the one for scripts), that rule and source are evaluated once, with the given interpreter in use. However the evaluation ends - normally, with an error or with a panic, having nested others and leaving muted regions open - afterwards the interpreter in use and the number of open muted regions are those from before it, and its error or panic is passed on. Likewise, however a part of a control statement of qlang ends, the stack level that statements of the enclosing code clear to is the one from before it.",
  ["programs", "fault_sequences"], "every way a nested evaluation can end, with 0-2 muted regions open before and 0-2 left behind, up to two levels of nesting; every form of and, or, if, switch and for", "the tests hardly evaluate a source that fails or panics inside another one", ["tpl/interpreter/interpreter.go", "tpl/qlang/cl/interpreter/interpret.go", "tpl/qlang/cl/ctrl.go"], [("Engine.EvalCode", "tpl/interpreter/interpreter.go, tpl/qlang/cl/interpreter/interpret.go"), ("evalCode", "tpl/qlang/cl/ctrl.go")], AI + " of EvalCode with the nested evaluation as an event, observed through the actions of marks; of the control handlers with every outcome of their parts", TB + "More than two levels of nesting follow from each level restoring its own state.")
p("I02", "Muted actions do not run",
  "In both engines, between a mute and its matching unmute no mark runs its function, except that a mark that starts with _ runs while exactly one region is open; nesting counts, so marks run again only after as many unmutes as mutes. A mark that is not muted runs its function once, whatever kind of function it is bound to. A new run starts unmuted, whatever the one before left open.",
  ["programs", "inputs"], "every sequence of mutes, unmutes and marks of up to 5 actions (7 in thorough), every number of mutes left open up to 3", "the tests use fixed grammars, with at most one region open at a time", ["tpl/interpreter/interpreter.go", "tpl/qlang/cl/interpreter/interpret.go"], [("New: _mute, _unmute, action, initer", "tpl/interpreter/interpreter.go"), ("newEngine", "tpl/qlang/cl/interpreter/interpret.go")], AI + " of the marker of each engine and of the actions it makes, for every sequence of actions", TB + "The state is an integer counter, so longer sequences add nothing but larger counts. That a run calls the hook is C10.")
p("I03", "Rule marks call exactly the handler bound to them",
  "When a mark is matched and not muted, the function bound to it is called exactly once: on the stack or the interpreter now in use with the length, the context (source, start, end, engine), the tokens, the engine, the text or the number that its parameters - or, for functions of a script, the name of the mark - ask for; a function without such a receiver gets its arguments from the top of the stack in order and its result is pushed. Where an argument cannot be supplied (no token, a bad number, an unsupported type, too few values) it is not called and the mark fails. In the engine for Go, an error or a panic with an error or text leaves the mark as a runtime error with that cause, its tokens and its grammar, and the text of a runtime error names file, line and cause; runtime errors, match errors and other panics leave unchanged. In the engine for scripts no failure is lost.",
  ["programs", "inputs"], "every accepted combination of receiver, second and third parameter, result and kind of mark; sources of 0, 1 and 3 tokens; every way the function can end", "the tests bind a few functions; each signature, mark and failure is a case of its own", ["tpl/interpreter/interpreter.go", "tpl/qlang/cl/interpreter/interpret.go", "tpl/interpreter.util/call.go"], [("New: marker and action, GetValue, ctxValue, RuntimeError", "tpl/interpreter/interpreter.go"), ("newEngine, callFn, callVfn", "tpl/qlang/cl/interpreter/interpret.go"), ("DoCall", "tpl/interpreter.util/call.go")], AI + " of the marker and of the actions it makes against a model of package reflect, with the bound function as an event with every outcome", TB + "Also trusted: the model of package reflect. The digits of a number are not part of this property (parsing is an uninterpreted function of the text).")
p("I04", "Script calls are validated before the function runs",
  "A function called through Call (bound functions) or VCall (a function, or object with a method Call, on the stack) runs only when the number of arguments is that of its parameters (at least the fixed ones of a variadic function) and each argument is assignable to its parameter; a number for a float64 parameter is converted with its value, and nil for a pointer or interface parameter is its zero value. It then runs once, gets exactly the topmost values in order - those of a list applied with ... one by one, in order - and its results are pushed once, in order; an error of pushing them or a panic of the function is passed on. In every other case it does not run and the call is an error or a panic, as is ... behind a value that is no list or without a value.",
  ["programs", "inputs"], "every combination of parameter and argument type (11 and 17 kinds) in fixed and variadic positions, up to 4 parameters, 5 arguments and 3 results, lists of up to 3 values", I, ["tpl/interpreter.util/call.go", "tpl/qlang/cl/qlang.go"], [("Call, DoCall, VCall, validateType", "tpl/interpreter.util/call.go"), ("Interpreter.VCall", "tpl/qlang/cl/qlang.go")], AI + " of the calling functions against a model of package reflect, with the stack, the call and its results as events", TB + "Also trusted: the model of package reflect in sa/ai/reflect.go and sa/ai/reflcall.go. Longer argument lists are not built.")
p("I05", "The value stack is last-in first-out",
  "On the stacks of the number, complex and rational calculators and of qlang, a push leaves every value in place and puts the given value (converted to the element type) on top. Popping yields the top value and leaves those below; popping an empty stack reports failure and changes nothing. Popping n arguments yields the n topmost values in push order, in memory of their own, and removes exactly those, or reports failure and changes nothing when there are fewer. The results of a called function are pushed in order (in qlang as one value: nil, the result, or a slice of all results in order; a result of an unsupported type is an error in the calculators).",
  ["histories"], "every sequence of stack operations, every depth, contents and argument count", I, ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", "tpl/qlang/cl/qlang.go", "tpl/qlang/cl/function.go"], [("Stack: Push*, Pop, PopArgs, PushRet, popNArgs, popFnArgs, popArity, BaseFrame, SetFrame, Clear", "tpl/number, tpl/cmplx, tpl/rat, tpl/qlang/cl")], AI, TB + "Results of called functions are followed for up to three results.")
p("I06", "Every mark used in a shipped grammar is bound to a usable function",
  "In the grammar of every shipped interpreter (a type that implements the interface of interpreters) each rule that is used is defined (doc before it is used), each token exists, and each mark is one of the engine's own (_mute, _unmute, _tr) or bound to a non-variadic function with at least one parameter. A handler of the stack or the interpreter has no result but an error and only parameters that the engine can supply for that mark: a length where the mark asks for one and its grammar has one, else the engine, a context, the source, or a text or number that the marked grammar always matches. So no shipped grammar fails to compile or calls a mark that cannot be called.",
  ["programs"], "every mark, rule and token of every shipped grammar", "tests exercise a few marks of one of the shipped grammars; a bad binding shows only when its mark is matched", ["tpl/qlang/cl/qlang.go", "tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go"], [("Grammar, Fntable", "tpl/qlang/cl, tpl/number, tpl/cmplx, tpl/rat"), ("New", "tpl/interpreter/interpreter.go")], "typed queries: the grammars and function tables are evaluated from the source, parsed, and each mark is checked against the type of the function bound to it", "Trusted: go/types, x/tools go/ssa, the evaluation of the package initialisers in sa/ai. The conditions on signatures are those of interpreter.New.")
p("I07", "Programs of qlang have the form of the language",
  "A sequence of tokens is a program of qlang exactly when it is a list of statements separated by semicolons (a missing one, also behind the last semicolon, is nil) of the forms: name = e, name, ... = e, name ++ and --, name op= e for + - * / %, return with or without e, defer e, or an expression - which, besides those of I08, is a function literal fn (names, the last with ... or not) { statements } (calls, indices and members may follow), if e { } any number of elif e { } with or without else { }, switch with or without e { any number of case e : statements, default : statements or not }, for with nothing or statements separated by semicolons as header { }, new class or new (class) with or without arguments, class { methods, each followed by a semicolon or not }, recover(), main { }, or a map { k : v, ... }. Statements may be missing in every block. Each construct gets exactly its parts, in order: bodies, conditions of if, switch and for, deferred expressions and right operands of && and || as code that is not evaluated where it stands, everything else as values. The values of earlier statements are cleared; exactly one value is left. Of ... without a parameter or argument before it nothing is said.",
  ["inputs"], "every token sequence, up to the bounds", "tests run a few scripts", ["tpl/qlang/cl/qlang.go"], [("Grammar", "tpl/qlang/cl/qlang.go")], "decided from the source: the grammar constant is read and matched by an abstract machine of the rule language with the meaning of its marks, and acceptance and trees are compared with a reference parser on token sequences", TB + "The PEG meaning of the combinators is C01-C07, muting and code capture I02. What the handlers do with their parts is Q01-Q08. Bounds: every construct in every place of every construct; all sequences that differ from these by a token (programs of up to 14 tokens, 40 in thorough), all sequences of up to 3 (4) of 45 tokens.")
p("I08", "Expressions of the shipped languages have the tree that precedence says",
  "In the number, complex and rational calculators and in qlang a sequence of literals, names, operators, parentheses and commas is an expression exactly when it has the usual form, and what is computed is its tree: * / (and % where it exists) bind tighter than + and -, those tighter than comparisons, && tighter than ||; binary operators are left-associative and take their operands in source order; prefix - + ! bind tighter than every binary operator and may be repeated; parentheses group; calls, indices, slices and members of qlang bind tighter than prefix operators and take their arguments in order (a trailing comma is allowed in lists and calls). In the calculators each operator computes the arithmetic operation of its name (in qlang: Q01). No value is left over on the stack. Of an index with two expressions and no colon nothing is said.",
  ["inputs"], "every token sequence up to a length, every chain of operators with prefix operators, every expression in an expression in an expression", "tests evaluate a few expressions", ["tpl/number", "tpl/cmplx", "tpl/rat", "tpl/qlang/cl/qlang.go"], [("Grammar, the table of marks, Neg Mul Quo Add Sub", "tpl/number, tpl/cmplx, tpl/rat"), ("Grammar: factor to expr, atom", "tpl/qlang/cl/qlang.go")], "decided from the source: the grammar constant is read, the operations of its marks come from " + AI + " of the functions bound to them, and the trees the grammar gives to every token sequence up to a bound (6 or 7 tokens; 7 or 8 in the thorough tier) are compared with those of a reference precedence parser", TB + "The PEG meaning of the combinators is C01-C07, when marks run C08 and I02. Longer sequences are covered by the chains (up to 4 operators) and the nested expressions only.")
p("I09", "Calculator functions are the functions they are named after",
  "A name in the function table of a calculator means the function of that name in math, math/cmplx or math/big, applied to its arguments in order (ln and log: natural logarithm; ldexp, jn, yn, pow10 take the integer part of their integer argument; inf the infinity of the argument's sign; cmplx: abs, phase, real, imag give real numbers, complex and rect... take real parts; max and min of any number of arguments, 0 of none). Arguments of the rational calculator are not changed. A call takes the given number of arguments off its own stack, calls the function bound to the name and puts the result there; an error of the call is the error of the handler. An unknown name, or a missing count, is an error that leaves the stack unchanged. Every function the calculators offer stays offered under its name.",
  ["programs", "inputs"], "every entry of the tables, every argument value (symbolic), every name and stack", "tests call a few functions", ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go"], [("fntable and the functions in it, (*Calculator).Call", "tpl/number/number.go, tpl/cmplx/cmplx.go, tpl/rat/big.go")], AI + " of every function bound in the tables on symbolic arguments, and of the call handlers on symbolic names and stacks", TB + "Also trusted: math, math/cmplx and math/big. How arguments are checked and converted is I04. max and min are compared over all orders of up to 3 arguments (4 in the thorough tier), without NaN.")
p("I10", "Numeric literals push the value they spell or fail",
  "The text of an integer is read in base 16 behind 0x or 0X, in base 8 behind 0 and in base 10 otherwise; that of a float is read as such. The result is the nearest value of the type asked for (int64 or float64; a decimal integer read as a float is read as one), or an error when it is out of range - never a default or a value in another base. A literal of a shipped language puts exactly one value on the stack and leaves the others: number and cmplx that number (an imaginary literal as imaginary part of its text without the i), rat the integer of any size, qlang an int, a float64, the unquoted string or the byte of a character literal of one byte; when the text cannot be read or represented it fails and puts nothing there. In the number calculator the names e, pi, phi, Inf and NaN are those constants and every other name is an error.",
  ["inputs"], "every literal text (by class: decimal, octal, hexadecimal, floats by the way they start and the marks they have, 0)", "tests use small well-formed literals", ["tpl/interpreter/interpreter.go", "tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", "tpl/qlang/cl/qlang.go"], [("ParseInt, ParseFloat", "tpl/interpreter/interpreter.go"), ("PushReal, PushImag, PushString, PushIdent, PushInt, PushFloat, PushByte", "tpl/number, tpl/cmplx, tpl/rat, tpl/qlang/cl")], AI + " on a symbolic text of each class of literals", TB + "Also trusted: that strconv and math/big read the digits they are given. Which literal texts exist is S07.")
Q = "tests run a few scripts; the guarantee is over every program and operand type"
p("Q01", "qlang operators compute the operation they name on every operand type",
  "For every pair of dynamic operand types, the qlang operators + - * / % < > <= >= (and unary -, ++, --, !) compute the Go operation of that name on their operands in source order: on int and float64 with int widened to float64 when they are mixed (% on int only), + and comparisons also on strings, comparisons also on bytes taken as int, ++ and -- on int and byte, ! on bool. == and != are Go's equality of the dynamic values. Every other combination is an error. The functions used for compound assignment and for switch are the same operations.",
  ["inputs", "programs"], "every operator, every pair of dynamic operand types and every value", Q, ["tpl/qlang/lib/builtin/number.go", "tpl/qlang/lib/builtin/boolean.go", "tpl/qlang/lib/builtin/exports.go"], [("Add, Sub, Mul, Quo, Mod, Neg, Inc, Dec, LT, GT, LE, GE, EQ, NE, Not and their registration", "tpl/qlang/lib/builtin")], AI + " of the function registered for each operator, for every pair of operand types", TB)
p("Q02", "Compound assignment combines the old value with the operand by its operator",
  "x op= y (for + - * / %) applies the operator to the old value of x and the value of y, in that order, stores the result in the variable x that the current scope holds or has referred to before - the outer scope's own variable, not a copy - and has the result as its value; x++ and x-- do the same with ++ and --. The operators are those of the corresponding expressions. A name that the current scope neither holds nor referred to is an error, and when the operator fails the variable keeps its value. No other variable changes.",
  ["programs", "inputs"], "every operator, operand value and way the name can be bound in a chain of scopes (interpreted for chains of up to four)", Q, ["tpl/qlang/cl/function.go"], [("AddAssign, SubAssign, MulAssign, QuoAssign, ModAssign, Inc, Dec, getVar", "tpl/qlang/cl/function.go")], AI + " of the handlers bound to the grammar's marks, on symbolic scopes and an arbitrary value stack", TB + "Chains of more than four scopes are not built; the code has no case that depends on the depth.")
p("Q03", "Conditional constructs evaluate exactly the parts that are selected, in order",
  "a && b and a || b evaluate b only when a does not decide the result, and have the value of b or of a; a that is no boolean is an error. if evaluates its conditions in order up to the first true one, then exactly the statements that belong to it, or those of else when none is true; switch evaluates its tag once, then the cases in order up to the first equal one (true without a tag), then exactly the statements of that case, or those of default; for evaluates the initialisation once, then condition, body and step in turn until the condition is false, a missing part being skipped (two parts in its header are an error). A condition that is no boolean is an error. Each construct leaves exactly one value - that of the statements it evaluated, or nil - and the statements of a block never remove values that were there before. An error or panic of a part is passed on and nothing is evaluated after it.",
  ["programs", "inputs"], "every form the grammar has for these constructs (with up to three elif, case parts), every outcome of every part", Q, ["tpl/qlang/cl/ctrl.go", "tpl/qlang/cl/qlang.go"], [("And, Or, If, Switch, For, evalCode and the rules of Grammar", "tpl/qlang/cl")], AI + " of the handlers on the stack each form of the grammar leaves, with the evaluation of captured parts as events of a ghost-state monitor", TB + "The number of elif and case parts is enumerated up to three; loops are solved by fixpoint. The thorough tier goes up to five.")
p("Q04", "Function calls bind arguments to parameters and always unwind",
  "Calling a qlang function evaluates its body once, in a new scope inside the one the function was written in, that holds exactly the parameters bound to the arguments in order (the last one of a variadic function to the list of the remaining arguments); a wrong number of arguments is rejected before anything is evaluated. Expressions deferred by the body are evaluated once each in that scope, last in first out, however the body ends, until one of them fails. The value of the call is that of the executed return, else nil. An error or panic of the body is passed on - a panic unless a function called by a deferred expression recovers it, which yields the panic value once - and a call that ends leaves the value stack as it was.",
  ["programs", "fault_sequences"], "every form of function (up to three parameters, variadic or not), number of arguments (up to four), way to leave the body and outcome of up to two deferred expressions", Q, ["tpl/qlang/cl/function.go"], [("Function.Call, Return, ExecDefers, Defer, Recover", "tpl/qlang/cl/function.go")], AI + " of the handlers that make a function, return, defer and recover and of the call, with the evaluation of body and deferred expressions as events of a ghost-state monitor", TB + "Variadic functions without a parameter and calls with more than four arguments are not covered.")
p("Q05", "Variables resolve to the innermost scope that holds them",
  "Reading a name yields the value of the innermost enclosing scope that has it (a name starting with '_' only from the current scope), otherwise the builtin of that name, otherwise it is an error. Assigning a name (x = v, or several at once, in order) sets the variable of the scope that holds it or that it referred to when it was read before, and otherwise makes a variable of the current scope; assigning a name of an outer scope that was not referred to in the current one is an error, as are a number of values that differs from the number of names and a value for several names that is no list. The value of an assignment is the assigned one. Removing a variable affects the current scope only. No variable other than the one named changes.",
  ["programs", "histories"], "every chain of scopes (interpreted for up to four) and every way each of them can hold, lack or refer to the name", Q, ["tpl/qlang/cl/function.go", "tpl/qlang/cl/qlang.go"], [("getRef, getVars, Assign, MultiAssign, Unset", "tpl/qlang/cl/function.go"), ("Var, SetVar, Vars", "tpl/qlang/cl/qlang.go")], AI + " of the handlers bound to the grammar's marks, on symbolic scopes", TB + "Chains of more than four scopes and more than three names at once are not built.")
p("Q06", "Safe execution turns failures into errors and unwinds the script once",
  "SafeExec and SafeEval execute the given source once and then evaluate the expressions it deferred at its top level, once each, last in first out, until one fails. An error, or a panic with an error or a string, of the script or of a deferred expression is the error they return unless it was recovered; none of these panics escapes; without a failure they return nil. A later script does not evaluate deferred expressions of an earlier one again.",
  ["fault_sequences", "programs"], "every outcome of the script and of up to two deferred expressions", Q, ["tpl/qlang/engine.go", "tpl/qlang/cl/function.go"], [("SafeExec, SafeEval", "tpl/qlang/engine.go"), ("ExecDefers, Recover", "tpl/qlang/cl/function.go")], AI + " of SafeExec and SafeEval with the execution of the script and of the deferred expressions as events of a ghost-state monitor", TB + "A panic with a value that is neither an error nor a string passes through, by design.")
p("Q07", "Objects are independent and methods see their receiver",
  "A class holds exactly the methods of its expression. new makes an object of its own, without variables, and calls _init, if the class has one, on it with the arguments; a failure of _init is passed on, and new with a value that is no class is an error. o.x is the variable x of o, else the method x with o as its this, else an error. For a map or a module m, m.x is the value under the key x, and an error if there is none. Setting a variable of an object changes that object only and is rejected for the name of a method. Methods behave as functions of the scope the class was written in whose first parameter is this.",
  ["programs", "histories"], "every class of up to two methods (up to two parameters, variadic or not), every form of new, two and three objects, calls before and after variables are set", Q, ["tpl/qlang/cl/class.go"], [("Class, New, MemberRef, SetMemberVar, thisDeref.Call", "tpl/qlang/cl/class.go")], AI + " of the handlers that make classes and objects and refer to members, and of the calls, on objects of one class", TB + "Classes that define a method twice are not covered; of the classes with two methods an even sample is interpreted in the quick tier.")
p("Q08", "Importing never replaces a definition",
  "Import(mod, table) makes table the module mod, and Import of a table without module name defines each of its entries globally. When the name of the module, or of an entry, is defined already - by anything other than the placeholder of an operator - Import panics and the definition keeps its value. No other definition and no other setting changes. In safe mode the table's _initSafe, if it has one, is applied to the table first.",
  ["histories", "configurations"], "every kind of definition (function, nil, number, text, module, placeholder, none) of the imported names, alone and in pairs, in both modes", Q, ["tpl/qlang/spec/spec.go"], [("Import", "tpl/qlang/spec/spec.go")], AI + " of Import on the table of definitions that the initialisation of the packages leaves", TB + "Tables of more than two entries are not built.")
p("Q09", "Container functions of qlang read and write exactly what they name",
  "In qlang a list literal has its values in order, and a map literal maps each key to its value (undefined values are left out); the element type is int, string or float64 (numbers of both kinds) when all values have it and any otherwise, also with no values. append adds its arguments behind the elements, converted to the element type; get, set, delete and sub (what index and slice expressions mean) read and write exactly the element, key or part named: a missing key is undefined, sub without an end goes to the length, nothing else changes and a bad index or bound fails. len and cap count, and are 0 of nil. max and min yield the largest and the smallest of numbers; byte, int, float and string convert; slice, mkmap, sliceOf and mapOf make values of the type that is named. The functions are bound to these names and in the variables the compiler calls.",
  ["inputs", "programs"], "every combination of argument kinds up to three arguments (four in thorough), with symbolic contents", "tests run a few scripts", ["tpl/qlang/lib/builtin/builtin.go", "tpl/qlang/lib/builtin/number.go", "tpl/qlang/lib/builtin/exports.go", "tpl/qlang/lib/builtin/types/types.go"], [("SliceFrom, MapFrom, Append, Get, Set, Delete, Len, Cap, SubSlice, Mkslice, Mkmap, SliceOf, MapOf", "tpl/qlang/lib/builtin/builtin.go"), ("Max, Min, Int, Float, Byte, String", "tpl/qlang/lib/builtin/number.go, builtin.go"), ("Fntable and what init sets in qlang", "tpl/qlang/lib/builtin/exports.go")], AI + " of the functions that are bound to the names, on every combination of kinds of arguments", TB + "reflect is modelled on slices, maps and their types. NaN is left out. Elements of channels are not covered.")
p("E01", "A failed node and an earlier run leave nothing in the extracted tree",
  "When the grammar of a Node or NodeArray mark fails, the tree has neither that node nor anything marked inside it, at any depth of nesting; everything extracted before it is still there, and what is extracted after it goes where it would have gone without it. The tree of an extraction has nothing of an earlier one of the same extractor, whether that matched, failed or was left by a panic in the middle of nested nodes. (Leaf marks outside a node act when they match: an alternative abandoned outside any node keeps its leaves.)",
  ["histories", "inputs"], "every history of marks up to a length: tags, kinds, nesting, failures, panics and earlier runs", "tests extract without backtracking, once", ["tpl/extractor"], [("marker and run hook in New, transCtx", "tpl/extractor/extractor.go"), ("Node, toMap", "tpl/extractor/document.go")], AI + " of New, the functions it gives to the compiler and those they give to each mark, over all histories of marks up to a bound, against a reference tree", TB + "That the matcher begins and ends transactions and runs actions in order is C08. Histories have up to 4 marks (5 in the thorough tier) of two tags, each leaf, leaf array, node or node array.")
p("E02", "Extracted trees have every value at its place, arrays in source order",
  "The tree has, for each tag extracted at a level, the value of its leaf, the tree of its node, or for an array mark one element for each match, in source order, however matches of other tags are interleaved - and nothing else. The value of a leaf is made of the text of the first token of what is marked. An empty node is an empty (nil) tree. Of a tag marked twice at one level without being an array nothing is said.",
  ["histories", "inputs"], "every history of marks up to a length, every interleaving of two arrays of up to 7 elements", "tests extract simple lists", ["tpl/extractor"], [("marker in New", "tpl/extractor/extractor.go"), ("Node, toMap, arrayCollect", "tpl/extractor/document.go")], AI + " of New, the functions it gives to the compiler and those they give to each mark, over all histories of marks up to a bound, against a reference tree", TB + "When marks run is C08. Histories have up to 4 marks (5 in the thorough tier) of two tags, and all interleavings of 7 elements of two arrays.")
p("E03", "Typed marks extract the documented type, and parsing reports failures",
  "A mark is tag_Type, or tag_Types or tag_TypeArray for an array; its tag may have underscores; one without any is refused. With a GetValue option that makes the values of leaves; by default Int is the decimal int64, Float the float64, String the unquoted text, Char the byte of a character literal of one byte, Bool the bool, Text the text itself; a text that cannot be converted and an unknown type are a panic with a string or an error. New compiles the given grammar with the scanner and scan mode of its options and returns the error of a grammar that cannot be compiled. Parse, SafeParse, Extract and SafeExtract match the whole source given, once, under the file name given, and return the tree; when the match fails they return its error and no tree; the latter three also turn a panic with a string or an error into that error and let any other panic through.",
  ["programs", "inputs"], "every documented suffix with tags of every shape, every text (symbolic), every way a match ends", "tests use three suffixes and no failure", ["tpl/extractor"], [("GetValue, New, Parse, SafeParse, Extract, SafeExtract", "tpl/extractor/extractor.go")], AI + " of the marker on each mark, of the conversion on a symbolic text, and of the parsing functions with the match as an event with every outcome", TB + "Also trusted: strconv.")
p("X04", "tplconv converts each file it is given or fails",
  "tplconv converts its files in order: each is parsed by the extractor of the grammar for its extension ($HOME/.tplconv/input/EXT.tpl) under its own name, and the result is written once, in the form asked for (json, or the html template of that name in $HOME/.tplconv/output), to the standard output or, with -ext, to the file with that extension added. The status is 0 only if every file was converted and written. Without files, or when a file or grammar cannot be read or compiled, a file has no extension or does not match, the form is unknown, or the output cannot be created or written, the status is not 0 and no further file is converted. Nothing else is created.",
  ["inputs", "configurations", "faults"], "every list of files (interpreted up to three), every form of output, with and without -ext, and every failure of reading, compiling, matching, creating, rendering and writing", "there is no test of the command", ["tpl/cmd/tplconv/tplconv.go"], [("main, processFile, printJson, makeHtmlTempl, outTemplates, outInternals", "tpl/cmd/tplconv/tplconv.go")], AI + " of main with the file system, flags, templates and extractor as events, for every event that can fail", TB + "The files, html/template and encoding/json are modelled; rendering a tree as JSON does not fail. Errors of closing a file are not looked at.")
p("G01", "The generated parser is the grammar of the rule text",
  "The Go code that GenStaticCode returns for a well-formed rule text compiles against package tpl, and the grammar its Cl builds is the one of the text: the same combinator for each operator over the same operands in the same order, the same tokens (keyword and operator literals looked up in the scanner that will scan), every mark handed to Marker with its name, cuts, rule names, the scanner of the compiler (a new AutoKwScanner if there is none), its scan mode and init hook, and the tables Grammars and Vars with every rule (Vars: the rules referred to before they are defined). A text without doc rule, with an undefined rule, a rule defined twice, an unknown token or a syntax error yields an error and no code.",
  ["inputs", "programs"], "every rule text, up to the depth of the combinations enumerated", "the generator has no test", ["tpl/generator"], [("GenStaticCode", "tpl/generator/static_parser_gen.go"), ("compiler actions", "tpl/generator")], "abstract interpretation of the generator on rule texts, then type-checking and abstract interpretation of the Go code it renders; the grammar built is compared with an independent reading of the text", "Bounds: every operator over every atom and over every operator (three levels in thorough), packed into rules, defined before and after their use. Limits: rule names that are Go keywords or new, tpl, cmplr, ret; a doc rule that refers to itself is refused (ErrNoDoc), as in the compiler.")
p("G02", "tplgen generates the parser of the grammar it was asked for",
  "tplgen reads the Go files of the current directory and takes the string literal (unquoted) of the named constant or variable that is declared at package level or declared or assigned directly in a function body, respecting the position in a tuple; other literals, names without value and functions without body are passed over without a panic. It gives exactly that text to the generator and writes only its output file, replacing an old one, in the package where the name was found, with an interpreter exactly when -i is given; what it writes compiles. When nothing is found or a step fails the exit code is not 0 and no code is written.",
  ["inputs", "failures"], "every enumerated shape of declaration and every failing step", "the command has no test", ["tpl/cmd/tplgen"], [("main", "tpl/cmd/tplgen/main.go"), ("output template", "tpl/cmd/tplgen/output.tpl")], "abstract interpretation of main over mirrored syntax trees with file operations as events; the rendered template is type-checked", "Bounds: about 48 directory contents. The copy of the interpreter in the template is type-checked, not compared with tpl/interpreter.")
p("X01", "Independent engines share no mutable state",
  "No library function writes into a package-level variable or into anything reachable from one: no assignment, map update, delete, copy or append in place, no call of the standard library that changes its receiver or argument, no reflection, and no process-wide setting (environment, working directory, default logger, ...). So creating and using a grammar, calculator, extractor or language engine does not interfere with others that are created or used in other goroutines. Excepted are package initialisation and what only it calls, explicit registration (spec.Import, SetAutoCall, SetDumpStack, qlang.Import and the like), which no library function does at run time, functions given to sync.Once, and what a script itself changes in an object that it names. Option variables the packages export, given as an argument, are not changed either. Variables of programs (package main) are not meant.",
  ["schedules", "histories"], "every writing instruction of every library function, whatever the interleaving", "no concurrent test exists", ["tpl"], [("package-level variables", "tpl/..."), ("New, SetGetValue, optionsDef", "tpl/extractor/extractor.go"), ("Fntable", "tpl/qlang/spec")], "inclusion-based points-to analysis (flow-insensitive, field-based) over the SSA form of the whole module; every writing instruction and receiver-changing library call is compared with what it may reach", "Trusted: the points-to analysis (inclusion constraints; context-insensitive), and the list of what standard library calls change. Accesses by unsafe are not followed (there are none).")
p("X02", "Sources and token slices given to the library are not modified",
  "No library function writes into the elements of a []byte or []Token given to an exported function or method or to an action of a grammar, nor into what lies behind them in the same array (append in place): scanning, tokenizing, matching, rendering of errors, evaluating and extracting leave the source and the tokens as they were. Buffers that a function is documented to append to and returns (Marshal) are excepted, and what a script changes in its own objects with set and append.",
  ["inputs", "programs"], "every writing instruction of every library function, whatever the source and grammar", "tests do not compare the input afterwards", ["tpl"], [("Scanner.Init, stripCR", "tpl/scanner.go"), ("Matcher.Match, Tokenize", "tpl/match.go"), ("actions", "tpl/interpreter")], "inclusion-based points-to analysis (flow-insensitive, field-based) over the SSA form of the whole module; every writing instruction and receiver-changing library call is compared with what it may reach", "Trusted: as for X01.")
p("X03", "Only a script's own top-level return or main ends the process",
  "No library function ends the process of its user (os.Exit, log.Fatal, runtime.Goexit, signals, parsing the command line) except qlang's return and main. return does so only at the top level of a script, after each deferred expression of the script has been evaluated (last in, first out), with the int it returns as exit code, 0 without a value; if a deferred expression fails or the value is no int, it panics instead; in a function it never ends the process. main evaluates its body once as a function and ends the process with the int it returns (0 for none) if the body succeeds; a body that fails, or returns something that is no int, makes main fail and the process goes on.",
  ["programs", "inputs"], "every function of the library packages; every value returned and every way deferred expressions and bodies end", "a test that hits it ends the test binary", ["tpl", "tpl/qlang/cl/function.go"], [("references to os.Exit, log.Fatal, ...", "all packages under tpl that are no program"), ("Return, Main, ExecDefers", "tpl/qlang/cl/function.go")], "who-may-refer analysis over the SSA form of all library packages, and " + AI + " of the two handlers that may end the process, with its end as an event", TB + "References made by the standard library itself are not followed, except parsing of the command line.")
exec(open(os.path.join(D, "tools", "status.py")).read())  # CLAIMED, NA, overrides

def main():
    with open(os.path.join(D, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in CLAIMED:
            checks.append({"property": q["id"], "quick_cmd": "./check.sh " + q["id"], "thorough_cmd": "./check.sh " + q["id"] + " thorough",
                "technique": q["tech"] or AI, "level": "other", "level_note": q["note"] or TB.strip()})
        else:
            na.append({"property": q["id"], "reason": NA.get(q["id"], "not decided: no check was built for it")})
    m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
         "notes": "All checks are one Go program (sa/) that loads /repo from source on every run; nothing of /repo is executed."}
    with open(os.path.join(D, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
main()
