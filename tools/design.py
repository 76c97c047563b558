#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below, and the tables from
properties.jsonl, MANIFEST.json, KNOWN_FINDINGS.txt and seeded/*/meta.json."""
import glob, json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = """# Static verification of qiniu/text

qiniu/text is a PEG library for Go (`tpl`): grammar combinators, a compiler from a
rule language, a scanner derived from go/scanner, an interpreter engine that runs
actions bound to marks of rules (`tpl/interpreter`, `tpl/interpreter.util`), three
calculators (`tpl/number`, `tpl/cmplx`, `tpl/rat`), the script language qlang
(`tpl/qlang`), an extractor to trees (`tpl/extractor`) and a generator of static Go
code (`tpl/generator`, `tpl/cmd/tplgen`).

## 1. Method

Everything is decided by static analysis of /repo's current source. Nothing of
qiniu/text is ever executed. `sa/` is one analyser, written in Go for this task on
top of go/packages, go/types and x/tools/go/ssa (vendored in `sa/vendor`, so it builds
offline). `check.sh ID` builds it into `.bin/` when its sources changed and runs one
property; it type-checks the packages of /repo, builds SSA, runs the analyses of
the property, writes `evidence/ID.json` and reports each violated obligation with
file, line and function.

The engine (`sa/ai`) is an abstract interpreter of SSA:

* *Values* are hash-consed terms: constants, symbols, applications, abstract objects,
  closures, symbolic slices (base object, offset, length as affine expressions).
* *State*: symbolic heap (object x field -> value, with symbolic array contents), a system
  of affine equalities/inequalities with a Fourier-Motzkin style decision procedure
  (`linsys.go`), facts about boolean terms, dynamic types, ghost variables of monitors.
* *Paths*: branches split on the condition when the state does not decide it;
  infeasible branches are dropped. Loops are summarised by a fixpoint (affine join +
  widening over the loop head) or, where a check asks for a concrete small count,
  unrolled by constants. Calls are followed to any depth; a call whose target is
  symbolic (a child grammar, a bound function, a captured code block, a scanner) is an
  *event* handled by the check: it forks into every outcome the callee may have
  (success with any count, failure at any position, panic with any value, re-entry that
  overwrites mutable fields of the same object).
* *Reflection*: reflect.Value/Type of symbolic objects are modelled
  (`reflect.go`, `reflcall.go`), as the engines call handlers through reflection.
* *Obligations* are stated by monitors over events and over the final state of each
  path: order and number of child matches, arguments, results, heap before/after.

So a check decides the property of a function for *arbitrary* operands - any grammar
as a child, any number of children, any token sequence, any value - not for sample
inputs; that is what the existing tests cannot do. Because the judgement is about what
the paths compute (values up to algebra, order of events, final heap), rewritten but
equivalent code gives the same verdict: helpers extracted, loops rewritten, conditions
inverted, statements reordered. For each check a set of behaviour-preserving edits was
written next to the breaking ones, and the check has to stay quiet on all of them.

Where a function leaves the modelled fragment the engine says so and the check fails
closed (an unanalysable construct in an analysed function is reported as a violation
of the form "not analysed"), never silently passes. A property is claimed only when all of
its obligations are decided on the current tree.

Exact bounds, where a check enumerates instead of summarising, are listed per
property below and in its evidence. `thorough` raises those bounds; for the checks
without bounds quick and thorough are the same.

## 2. Running

    ./check.sh setup          # builds the analyser (setup_cmd)
    ./check.sh C01            # quick
    ./check.sh C01 thorough
    .bin/sa -list             # all checks
    .bin/sa -prop C01 -v      # with the path of each violation
    python3 tools/props.py    # regenerates properties.jsonl and MANIFEST.json
    python3 tools/design.py   # regenerates this file

For every check, trusted: go/types, x/tools go/ssa, the analyser's transfer functions and its models of the
standard library (below: "as above").

Cost: under 10 s for most checks; Q07 about 85 s, Q03 10 s (thorough 230 s), I08 6 s
(thorough 220 s); the analyser itself builds in about 20 s.

There are no hooks in /repo: the only commits there are the `fix:` commits of section 5.
"""

HOW = {
"C01": "The value built by the exported constructor is interpreted with a symbolic list of children (length n >= 0, fail-fast marks at arbitrary places). Ghost counters (next child, position, failed) are related to the program's variables by the loop fixpoint; at every child match the monitor checks which child is tried and on which part of the tokens; at every return the count, at every failure the error identity and position, after a failure behind a mark that the function panics with that error.",
"C02": "As C01: order of attempts, first success wins, exhaustive failure, furthest position; the returned error is that of the only alternative that got furthest (with ties any error located there is allowed).",
"C03": "One analysis per repetition constructor with arbitrary children. The monitor knows the end of the last complete element; obligations at every attempt (where) and at the end (reported count = end of the last complete element, no further attempt after a failure).",
"C04": "Progress rule as part of the same interpretation: every iteration of a loop tries a child, and a child is not tried again after an element matched zero tokens. Termination then follows since every other iteration consumes at least one of finitely many tokens.",
"C05": "The Len method is interpreted on the state after each match path; child events may re-enter the grammar (havoc of its mutable fields), so a counter kept in the object rather than in the match is seen to be wrong.",
"C06": "Single attempt of the operand at the current position; zero tokens; verdict equal / negated on every outcome.",
"C07": "Case split over the input (empty, token of wanted kind, INT where FLOAT is wanted, any other kind) is complete by construction; Var/Named over arbitrary operands including unassigned.",
"C08": "Action, begin/end of transactions are events; the monitor checks number, order, arguments (tokens slice identity, the grammar) and return value passing for success, failure and abort of the operand.",
"C09": "Whole runs from Match/MatchExactly/Eval/EvalSub with a symbolic scanner (any number of tokens) and a symbolic grammar; verdict on each path compared with what the grammar reported.",
"C10": "Events: scanner Init exactly once with this source before the first Scan, init hook exactly once before the grammar. Scanner.Init is interpreted over an arbitrary earlier Scanner state: each field that Scan reads must be overwritten with a value that does not depend on the earlier state.",
"C11": "The token slice is followed through every append (symbolic contents): order, completeness, EOF token just past the end; the error handler may be called at any scanner event and then the run must fail with that message and position and never get to the grammar.",
"C12": "Interval obligation on the reported count of every constructor; error index inside the tokens; in the renderer every index and slice expression is an obligation under arbitrary tokens, index and source text.",
"C13": "The grammar of the rule language is reconstructed from the constructor calls of the compiler's init and compared in a normal form (flattened alternatives, commuted disjoint alternatives) with a reference grammar; the effect of each compile action is computed over an arbitrary operand stack and classified as `push Combinator(operands in order)`; the rule language's decisions are checked to be made by distinct first tokens, so PEG order does not matter.",
"C14": "The actions that define and resolve names and the end of compilation are interpreted over arbitrary rule tables: redefinition, use of undefined rules, missing doc, marks without grammars are errors and nothing else is.",
"S01": "The operator part of Scan is interpreted on a symbolic text; the characters read are a tree of decisions, which is compared with the longest-match automaton derived from the token tables.",
"S02": "Ghost copy of the reader position: the literal of every token must be the source slice from its offset to the reader's position, position fields those of the first character, raw strings without carriage returns.",
"S03": "The insertion flag is followed through all states: a newline, EOF, a // or # comment, or a /* */ comment with a newline after a token that ends a statement yields exactly one semicolon token with the literal \"\\n\"; no other place does.",
"S04": "Progress rule: each Scan either consumes at least one character, or returns EOF, or consumes the pending semicolon (which clears the flag).",
"S05": "Paths of each lexeme class that do not end as the lexical grammar wants must contain an error report event.",
"S06": "The token tables are evaluated from the package initialiser and compared kind by kind; conversions are interpreted on arbitrary spellings.",
"S07": "The number and char/string scanners are interpreted as automata on symbolic text; each path is compared with the reference regular expression for the class; well-formed inputs never reach an error report.",
"S08": "Relation between keyword kinds and spellings kept by the discovering scanner, for arbitrary keywords.",
"I01": "EvalCode of each engine with the nested evaluation as an event with every outcome (ok, error, panic, nested evaluation inside; two levels); compared before/after: which marks run, which interpreter and source they get. The qlang control statements are interpreted with each outcome of their parts, frame base and scope compared.",
"I02": "All sequences of mute, unmute and other marks up to length 5 (thorough: 7) through the action functions actually produced by the marker; the number of handler calls is compared with the specification (mute depth). Evaluation start resets the depth.",
"I03": "The marker of both engines is interpreted for every accepted handler signature (receiver kinds, value/len/token/source parameters, error result); the produced action is interpreted with each kind of source (text/tokens) and each ending of the handler.",
"I04": "VCall/Call/CallFn are interpreted for stacks and parameter lists of every arrangement of argument kinds up to three arguments against each parameter kind; the reflect call is an event: reached exactly when types fit, arguments in order with exact conversions (no silent narrowing), results pushed, errors otherwise with the function not run.",
"I05": "Each stack operation on a stack of arbitrary contents; results of called functions up to 3.",
"I06": "Languages are found by the interface (Grammar, Fntable, Stack); the rule text and the function table are evaluated from package initialisers; each mark must be bound to a function of a usable signature, each name and token must resolve. Also: no unused rule shadows.",
"I08": "The grammar constant is evaluated and read by a reader of the rule language; its marks' operations are found by interpreting the bound functions; an abstract matching machine with the PEG meaning (C01-C07) and the meaning of marks (C08, I02) is run on every token sequence over an operator alphabet up to 6-7 tokens, on all operator chains with prefix operators up to 4 operators (qlang 3), and on all expressions in an expression in an expression; the tree of each is compared with a reference precedence parser; both acceptance and tree must agree. The grammar is data here, so this is exhaustive evaluation of a finite abstract machine, not execution of the library. A binary function is judged modulo commutativity and the definitions of difference and quotient.",
"I09": "Each entry of the function tables is interpreted on symbolic arguments with math, math/cmplx, math/big as uninterpreted functions; the result must be the application of the function of that name (normalised: a-b = a+(-b), a/b = a*inv b, cmplx.Abs = Hypot ...). Call handlers over symbolic names and stacks.",
"I10": "ParseInt/ParseFloat and every push handler on a symbolic text of each literal class; strconv and math/big yield the value of the text they are given in the base they are given, or fail.",
"Q01": "For each operator, all pairs of dynamic types; result compared as a term with the Go operation.",
"Q02": "Chains of up to four scopes in every binding situation; value stack arbitrary.",
"Q03": "Handlers of && || if switch for on the stack each grammar form leaves; evaluation of parts are events; up to 3 elif/case (thorough 5), for loops by fixpoint.",
"Q04": "fn/return/defer/recover and the call interpreted together; body and deferred expressions are events with each outcome.",
"Q05": "References and assignments on chains up to four scopes, every way each holds the name (own, cached reference, absent).",
"Q06": "SafeExec/SafeEval: script and each deferred expression may end, fail or panic with string, error; others re-panic.",
"Q07": "class/new/member/method call/assignment on objects of classes with up to two methods (thorough: all two-method classes).",
"E01": "New is interpreted with the compiler as an event, which yields the marker and the run hook; the marker is interpreted per mark with tpl.Action/Transaction as events, which yields the functions of the mark. Those are then run abstractly through every history of up to 4 (5) marks of two tags over all kinds, with failing nodes at any level, and behind earlier runs (also aborted ones); Result must equal the reference tree of what succeeded. Quick 15 s.",
"E02": "As E01 for histories without failures, plus all interleavings of 7 elements of two arrays.",
"E03": "The marker is interpreted for 240 marks (tag shapes x types x suffixes) and the leaf or node it makes compared; the default conversion on a symbolic token text with strconv as uninterpreted functions with both outcomes; the four parsing functions with the match as an event (ok, error, three kinds of panic).",
"I07": "sa/iprog.go on the machine of sa/isim.go: marks of statements collect what has been pushed since their rule for values began; _mute, _unmute, _code, clear and pushn are modelled; code is matched again on its own tokens, as EvalCode does. About 2.9 million token sequences (programs in which every construct stands in every place of every construct, their variants by one token, all short sequences) are compared with a recursive descent parser of the language. Quick 9 s, thorough 50 s.",
"S09": "sa/srctext.go interprets Source, FileLine, the Error methods and the engine's accessors on symbolic sources (bytes, offsets and lines are uninterpreted functions of the token) and compares bounds of the part, line and name; for rendered errors the arguments that end up in the text. 2 s.",
"Q09": "sa/qcont.go finds the functions through the table of definitions (Fntable and the variables of tpl/qlang/spec that init sets), interprets each for every combination of kinds of arguments with symbolic contents, and compares the resulting slice, map or number - element type, order, values, what changed and what did not - with the meaning; panics must occur exactly where the meaning has none. Quick 3 s, thorough 5 s.",
"X04": "sa/tconv.go interprets main of the command (with the initialisers of its package) for about 200 command lines: lists of one to three files, every output form, with and without -ext, and every event failing at every file. Reading, compiling, parsing, creating and writing are events that carry what they belong to, so that a result is only accepted for the file it came from and in the place it was asked for; a path must end with status 0 exactly when no event failed. It found that a failure to write JSON was ignored (fixed). 2 s.",
"C15": "sa/rend.go: a Go file with one function per grammar tree (about 9000, 17000 in thorough) is built in memory, type-checked against the current tpl and interpreted with the constructors and Marshal methods of tpl; Ttol of the scanner is the only symbol. The resulting texts are read by the rule-text reader (gtpl.go, with the two-character tokens of the scanner) and compared with the trees after removing groups that mean nothing. Quick 18 s, thorough 50 s.",
"G01": "sa/gen.go: the generator is interpreted on rule texts whose matching is done by the reference matcher (its actions run in the order of the text); the Go code that it renders is parsed, type-checked against the current tpl and interpreted in turn with the constructors of tpl as symbols; the term graph it builds is compared with the reading of the text by gtpl.go. The rule texts are every operator over every atom and every operator, packed into few texts; ill-formed texts must give an error. Quick 12 s, thorough 40 s.",
"G02": "sa/gen2.go: go/parser is replaced by a mirror that builds the syntax tree of ~48 written directories as abstract objects; main is interpreted with ReadDir, Create, Open, Execute, Exit and the generator as events and each of the calls failing in turn; the order and arguments of the events are compared with the independent reading of the directory. The template is rendered for each outcome and type-checked.",
"X01": "A whole-module Andersen points-to analysis (sa/pts.go): objects are allocation sites and package-level variables, fields kept apart, calls through function values and interfaces resolved by what flows to them, reflection and the standard library by summaries. Every store, map update, append, copy, delete and receiver-changing call in a function that can run after initialisation must not reach an object reachable from a package-level variable. Registration functions are found by what they are (only writers of their table) and must not be called by library functions. Quick 8 s.",
"X02": "The same analysis with an object for the array behind each []byte and []Token parameter of an exported function or action; no element store, append in place or copy may reach one.",
"X03": "Who-may-refer: every operand of every SSA instruction of library packages that is a process-ending function must be in the handlers of return/main or in a function only they call. The handlers are interpreted with exit, body and deferred expressions as events for every returned value type, 0-3 deferred expressions, top level and nested.",
"Q08": "Import on tables with undefined, placeholder and defined names; table before/after.",
}
LIMITS = """## 6. Decisions about false alarms, and limits

Statements were adjusted where the code is right and the first wording was too strong:

* After an illegal token nothing is said about the pending semicolon (S03).
* With ties at the furthest position C02 accepts any of the tied errors.
* Index expressions of qlang with two expressions and no colon (`a[1 2]`) are accepted by
  the grammar and ignore one; I08 says nothing about them.
* qlang's `==`/`!=` are Go interface equality (1 == 1.0 is false); Q01 states that.
* SafeExec re-panics values that are neither string nor error (Q06 states string and error).
* A compound assignment to an outer variable that the scope has not referred to is an error (Q02).
* `return`/`main` of a script call os.Exit by design (X03 states when); a `main` block ends the process without running the script's own deferred expressions.
* max/min are compared without NaN.

Known behaviours that are left as they are (no property claims otherwise): the byte branch of
castVal is dead code; a recursive rule named `doc` that is used before its definition gives ErrNoDoc;
the extractor reads Int in base 10 only; interpreters written in qlang (cl/interpreter) read marks with
Atoi/ParseFloat; the copy of the interpreter in tplgen's output.tpl is type-checked but not compared with
tpl/interpreter; the generator does not rename rules that are Go keywords or new, tpl, cmplr, ret; a rule consisting only of "!" compiles to a
nil grammar; Token.End of a raw string with carriage returns uses the literal without them; after
`unset(x)` an inner scope that cached x reads nil; when one deferred expression of a function fails, the
remaining ones are dropped; a Go function with several results called from a script pushes only the first.

Limits of the engine: goroutines and channels are not modelled (qiniu/text starts none);
float arithmetic is symbolic (constants folded, IEEE identities not used); standard library
functions are models (strconv, strings, bytes, utf8, math, math/cmplx, math/big, reflect, fmt as
opaque text); maps are symbolic finite maps; recursion is followed where it is bounded by the
structure, and is otherwise an event.

Mutants found to be equivalent (checks rightly quiet): dropping the length of the last of several length
marks (I03 m_lenlast), the run-eval valid flag (m_runevalid), recursive return flag (m_recovret), I04 m_more.
"""

def main():
    props = [json.loads(l) for l in open(D + "/properties.jsonl")]
    man = json.load(open(D + "/MANIFEST.json"))
    checks = {c["property"] if "property" in c else c.get("property_id", c.get("id")): c for c in man["checks"]}
    na = man.get("not_applicable", [])
    seeds = {}
    for f in sorted(glob.glob(D + "/seeded/*/meta.json")):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    o = [INTRO, "\n## 3. Properties and how each is decided\n"]
    for p in props:
        c = checks.get(p["id"])
        o.append("\n### %s %s\n" % (p["id"], p["title"]))
        if c:
            o.append(HOW.get(p["id"], "") or "(see the technique field)")
            o.append("\n*Technique*: %s." % c["technique"])
            o.append(" *Trusted/assumed*: %s" % (c["level_note"].replace("Trusted: go/types, x/tools go/ssa, the analyser's transfer functions and its models of the standard library. ", "") or "as above"))
            if p["id"] in seeds:
                o.append("\n*Planted bugs caught*: " + ", ".join(s for s, _ in seeds[p["id"]]) + ".")
            o.append("\n")
        else:
            r = [x for x in na if x.get("property", x.get("property_id", x.get("id"))) == p["id"]]
            o.append("Not claimed: %s\n" % (r[0]["reason"] if r else ""))
    o.append("\n## 4. Planted bugs\n\nEach compiles, passes the 12 stable tests, and has a demonstration that fails with it and passes without. All are caught by the check named.\n\n| seed | check | needs |\n|---|---|---|\n")
    for pid in sorted(seeds):
        for s, m in seeds[pid]:
            o.append("| %s | %s | %s |\n" % (s, pid, m["needs"].replace("|", "\\|").replace("\n", " ")))
    o.append("\n## 5. Genuine defects found and repaired\n\nEach is a separate `fix:` commit in /repo, listed in KNOWN_FINDINGS.txt; none is left as a known finding.\n\n")
    for l in open(D + "/KNOWN_FINDINGS.txt"):
        if l.startswith(("fixed:", "known:")):
            o.append("* " + l.strip() + "\n")
    o.append("\n" + LIMITS)
    open(D + "/DESIGN.md", "w").write("".join(o))
main()
