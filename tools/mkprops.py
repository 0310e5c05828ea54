#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A proof step is accepted exactly when its rule derives its conclusion",
  "A `step` is accepted iff the rule's argument, premise (or premise-list), assumption and explicit-conclusion patterns match what is supplied, every `:requires` pair evaluates to the same value, and the conclusion so derived is a fully evaluated Bool formula equal to the stated one (if one is stated). What the step proves from then on is exactly that derived conclusion. Anything else (wrong rule, wrong number/order of arguments or premises, unproven premise, altered conclusion) makes the whole proof rejected.",
  ["inputs", "programs"],
  "For all declared rules (all combinations of :assumption/:premises/:premise-list/:args/:requires/:conclusion/:conclusion-explicit, with repeated and nested parameters) and all steps, well-formed or tampered with, that apply them.",
  "The tests are 170 accepted files: no test shows that a wrong step is rejected, and each rule shape is sampled once or twice.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp"],
  [("rule application", "State::notifyStep in src/state.cpp"), ("declare-rule and step commands", "CmdParser::parseNextCommand in src/cmd_parser.cpp"), ("pattern matching", "TypeChecker::match, evaluateProgramInternal in src/type_checker.cpp")],
  "exit status and last line of standard output of ethos")

p("C02", "Local assumptions are scoped and discharged in strict stack order",
  "`assume-push` opens a scope and `step-pop` closes the innermost one, handing its rule exactly the formula of that assume-push; everything named inside the scope is unusable afterwards while everything outside stays usable, unchanged. `step-pop` needs an open scope and a rule with `:assumption`, `step` needs a rule without it, and a proof that ends (or an included file that ends) with an open local assumption is rejected.",
  ["histories"],
  "For all interleavings of assume, assume-push, step, step-pop and declarations/definitions at any nesting depth, including re-used names and references to names of closed scopes.",
  "The tests contain a handful of one- and two-level scopes, all valid; no test closes scopes wrongly or uses a name after its scope ended.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/main.cpp"],
  [("assumption scopes", "State::pushAssumptionScope/popAssumptionScope/getCurrentAssumptions in src/state.cpp"), ("step-pop", "CmdParser::parseNextCommand in src/cmd_parser.cpp"), ("end of input", "State::includeFile, main in src/main.cpp")])

p("C03", "With a reference, every top-level assumption is one of its assertions",
  "When a reference file is given (command or --reference option), a proof is accepted only if each `assume` formula, after applying the optional normalization function to both sides, is syntactically one of the assertions of the reference (where define-fun contributes its defining equation and define-const/define-sort/let are expanded); formulas of `assume-push` are exempt. This is independent of where includes, definitions and local scopes occur after the reference, and only one reference may be given.",
  ["inputs", "histories", "configurations"],
  "For all reference files over the supported SMT-LIB commands, all normalization functions, and all proofs that assume asserted formulas, near misses of them, or nothing, before/after includes and inside local scopes.",
  "Reference tests are few positive examples; a check that silently stopped validating would pass every one of them.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/main.cpp"],
  [("reference assertion set", "State::addReferenceAssert/addAssumption in src/state.cpp"), ("reference and SMT-LIB commands", "CmdParser::parseNextCommand in src/cmd_parser.cpp")])

p("C04", "The response correct/incomplete/error is honest",
  "ethos ends with exit status 0 and the response `correct` iff every command of the input was accepted and no step used a rule marked `:sorry`; it answers `incomplete` iff every command was accepted and at least one step used such a rule; otherwise it prints an error, exits with non-zero status, and prints neither response. Trusted rules that are declared but never used, and scopes, resets or options, do not change this.",
  ["inputs", "histories", "configurations"],
  "For all sequences of commands using any mix of sorry and ordinary rules in any scope, with an error injected at any position, from file or standard input and under all options.",
  "Tests only look at the exit status of accepted files; none checks the response against the rules used, nor that an error anywhere in a long file is fatal.",
  ["src/main.cpp", "src/state.cpp", "src/cmd_parser.cpp", "src/stats.cpp"],
  [("final response", "main in src/main.cpp"), ("sorry marking and usage", "State::markProofRuleSorry, RuleStat in src/stats.cpp"), ("fatal errors", "Lexer::parseError, EO_FATAL in src/base/check.h")])

p("C05", "Literal operators compute exact mathematics",
  "Every eo:: operator on literals (Boolean, arbitrary precision integer and rational, bitvector and string operators and the conversions between them) evaluates to exactly the value given in the manual for arguments of the kinds it is defined on, and does not evaluate for arguments of other kinds, out-of-domain values (e.g. division by zero, bad indices) or wrong argument counts.",
  ["inputs"],
  "For all literal operators and all tuples of literals: signs, zero, huge magnitudes, unreduced rationals, zero-width and wide bitvectors in binary or hexadecimal syntax, empty and non-ASCII strings, indices at and beyond every boundary.",
  "Tests evaluate a few dozen fixed applications; the domain is infinite and the boundaries (word sizes, widths, negative operands, code points) are not sampled.",
  ["src/literal.cpp", "src/util/integer.cpp", "src/util/rational.cpp", "src/util/bitvector.cpp", "src/util/string.cpp"],
  [("literal evaluation", "Literal::evaluate in src/literal.cpp"), ("bitvector arithmetic", "src/util/bitvector.cpp"), ("strings", "src/util/string.cpp"), ("n-ary operators", "State::mkExpr in src/state.cpp")])

p("C06", "List operators agree with sequences and multisets",
  "For every operator with a nil-terminated associative attribute, eo::nil, cons, list_len, list_concat, list_nth, list_find, list_rev, list_erase, list_erase_all, list_setof, list_minclude, list_meq, list_diff, list_inter and list_singleton_elim return what the same operation returns on the sequence (or multiset) of the list's elements, in list form again. On terms that are not lists of that operator, or with out-of-range or ill-kinded positions, they do not evaluate.",
  ["inputs"],
  "For all right- and left-associative (also non-singleton and type-dependent nil) operators and all lists over them with repetitions, nested lists of the same or other operators, empty and singleton lists, and non-lists.",
  "Tests sample each operator with one or two short duplicate-light lists, mostly right-associative.",
  ["src/type_checker.cpp", "src/state.cpp"],
  [("list evaluation", "TypeChecker::evaluateLiteralOpInternal, evaluateList*Internal in src/type_checker.cpp"), ("nil terminators", "TypeChecker::computeConstructorTermInternal in src/type_checker.cpp")])

p("C07", "Programs evaluate by first matching case, and are stuck otherwise",
  "Applying a program to fully evaluated ground arguments yields the result of its first case (in textual order) whose pattern matches syntactically (repeated parameters bind equal terms), evaluated under that match; it does not evaluate if no case matches or an argument did not evaluate. Recursion, mutual recursion through forward declarations, list parameters in patterns and results, and sharing between calls do not change this.",
  ["programs", "inputs"],
  "For all programs with any number and order of overlapping cases, linear and non-linear patterns of any depth (including attribute operators, list parameters and literals), and all ground argument tuples.",
  "Tests run given programs on given inputs and mostly hit one case each; overlapping cases, failing matches and argument-dependent caching are not explored.",
  ["src/type_checker.cpp", "src/state.cpp", "src/cmd_parser.cpp"],
  [("program evaluation", "TypeChecker::evaluate, evaluateProgramInternal, match in src/type_checker.cpp"), ("program definition", "Token::PROGRAM case of CmdParser::parseNextCommand in src/cmd_parser.cpp")])

p("C08", "Core operators and stuckness propagation follow their laws",
  "eo::eq, is_eq, is_ok, ite, requires, typeof, nameof, cmp, hash and the is_* tests return the values the manual gives on every ground term, where equality is syntactic identity, cmp is a strict total order consistent with equality, and hash is injective on the terms hashed. A term with a stuck subterm is itself stuck except under is_ok/is_eq and in the branch eo::ite does not take, and nothing stuck is ever accepted as a conclusion.",
  ["inputs"],
  "For all ground terms built from constants, applications, literals of all kinds, types and (possibly stuck) operator and program applications, nested arbitrarily.",
  "Tests use fixed small terms; laws such as totality, transitivity, injectivity and propagation are universal and cannot be settled by samples chosen by hand.",
  ["src/type_checker.cpp", "src/state.cpp", "src/expr.cpp"],
  [("core evaluation", "TypeChecker::evaluateLiteralOpInternal, evaluate in src/type_checker.cpp"), ("evaluatable flags", "ExprValue::computeFlags in src/expr.cpp"), ("hash", "State::getHash in src/state.cpp")])

p("C09", "Attribute syntax denotes exactly its documented curried term",
  "Applying an operator declared with :right-assoc, :left-assoc, their -nil and -non-singleton-nil variants, :chainable, :pairwise, :arg-list or :binder yields the very term obtained by writing the documented curried application with `_` explicitly, including where :list parameters splice, the nil terminator (also type-dependent) and single or partial applications. Operators without attributes, and `_` applications, are plainly curried.",
  ["inputs", "programs"],
  "For all attributes, all argument counts, all mixes of :list and ordinary parameters in any position, nested applications of several attributed operators, and all element types of parametric operators.",
  "Tests include a few argument counts per attribute; positions of list parameters and nesting combinations are unbounded.",
  ["src/state.cpp", "src/expr_parser.cpp", "src/attr.cpp"],
  [("attribute desugaring", "State::mkApplyAttr in src/state.cpp"), ("attribute parsing", "ExprParser::parseAttributeList, processAttributeMap in src/expr_parser.cpp"), ("type-dependent nil", "TypeChecker::computeConstructorTermInternal")])

p("C10", "A term is accepted exactly when it is well typed, with its right type",
  "A ground term is accepted by declarations, definitions with :type, assumptions and as a conclusion of rules and steps iff it is well typed under the declared (curried, parametric, dependent, implicit, opaque or conditional) function types, where formulas must have type Bool and types type Type; its type is the declared return type instantiated by matching and evaluated. Ill-typed terms (wrong argument type, too many arguments, non-function heads, unmatched or unevaluable types) are rejected, and eo::typeof returns that same type.",
  ["inputs", "programs"],
  "For all signatures of constants of function, parametric, dependent and requires-guarded types, literal types declared by declare-consts, and all well- and ill-typed terms over them.",
  "All tests are accepted files, so that ill-typed terms are rejected is untested; typing rules quantify over all signatures and terms.",
  ["src/type_checker.cpp", "src/expr_parser.cpp", "src/state.cpp"],
  [("type checking", "TypeChecker::getType, getTypeInternal, getTypeAppInternal in src/type_checker.cpp"), ("literal types", "TypeChecker::setLiteralTypeRule/getOrSetLiteralTypeRule"), ("declarations", "CmdParser::parseNextCommand in src/cmd_parser.cpp")])

p("C11", "Definitions, let and eo::define are transparent abbreviations",
  "Replacing any use of a symbol introduced by define (with or without parameters), let or eo::define by its body, with parameters replaced simultaneously by the arguments given, changes neither the term denoted nor any verdict. Definitions see the symbols in scope where they are written, not where they are used; let binds in parallel.",
  ["programs", "inputs"],
  "For all nestings of definitions, lets and eo::defines, with shadowing names, repeated and unused parameters, higher-order bodies and definitions using operators, programs and attributes.",
  "Tests use few definitions, almost none with shadowed or clashing names.",
  ["src/expr_parser.cpp", "src/cmd_parser.cpp", "src/state.cpp"],
  [("let and eo::define", "ExprParser::parseExpr in src/expr_parser.cpp"), ("beta reduction", "State::mkExpr LAMBDA case in src/state.cpp"), ("define command", "CmdParser::parseNextCommand")])

p("C12", "Names resolve by lexical scope, and scopes restore what they hid",
  "A symbol refers to its most recent visible declaration; leaving a scope (of parameters of a rule, program, definition, declaration or let, of assume-push, or of push) removes exactly the names bound in it and restores what they shadowed, and reset leaves only the builtin symbols. Undeclared and out-of-scope symbols are always rejected, and two declarations of the same name give different constants.",
  ["histories"],
  "For all histories of declarations, definitions, rules, programs, pushes, pops and resets over a small pool of names, with uses of every name probed after each.",
  "Tests declare each name once; shadowing and restoring arise from histories the tests do not contain.",
  ["src/state.cpp", "src/expr_parser.cpp", "src/cmd_parser.cpp"],
  [("symbol table and scopes", "State::bind/pushScope/popScope/reset in src/state.cpp"), ("sorted variable lists", "ExprParser::parseAndBindSortedVarList in src/expr_parser.cpp")])

p("C13", "Overloaded and ambiguous symbols resolve by type",
  "An application of an overloaded symbol denotes the application of the one declaration in scope for which it is well typed, `(eo::as f T)` denotes the overload whose type is T, and `(as f T)` disambiguates ambiguous constructors and functions by return type; if no overload fits, the term is rejected. Adding an overload at an unrelated type changes the meaning of no existing term.",
  ["inputs", "histories"],
  "For all sets of overloads at pairwise distinct argument types (with or without attributes), declared in any order or scope, and all applications including curried, nested and ill-typed ones.",
  "Tests have a few overload sets with the expected use only.",
  ["src/state.cpp", "src/expr_parser.cpp"],
  [("overload resolution", "State::getOverloadInternal, mkExpr in src/state.cpp"), ("ambiguous functions", "State::mkDisambiguatedType in src/state.cpp")])

p("C14", "Datatype declarations introduce exactly the declared signature",
  "After declare-datatype(s), each datatype, constructor and selector has the type its declaration gives (parametric constructors instantiated by their arguments, ambiguous ones by `as`), eo::dt_constructors lists the constructors of a datatype and eo::dt_selectors the selectors of a constructor in declaration order, and both do not evaluate on any other term. Ill-formed declarations and ill-typed uses are rejected.",
  ["inputs", "programs"],
  "For all (mutually) recursive, parametric and monomorphic datatype blocks with any numbers of types, constructors and selectors.",
  "Tests declare a handful of standard datatypes.",
  ["src/expr_parser.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp"],
  [("datatype parsing", "ExprParser::parseDatatypesDef in src/expr_parser.cpp"), ("constructors and selectors", "EVAL_DT_CONSTRUCTORS/EVAL_DT_SELECTORS in src/type_checker.cpp")])

p("C15", "Literals and symbols are read and printed faithfully",
  "Each numeral, decimal, rational, hexadecimal, binary and string literal (with its escapes) denotes the documented value and category under the normalization options in force, in signatures and in proofs; equal values of one category are the same term and others are different terms; quoted and simple symbols of the same name are the same symbol. Literals shown in messages read back as the same literal.",
  ["inputs", "configurations"],
  "For all spellings of literals and symbols, all settings of the normalize and parse-let options (command line or set-option), and file kinds.",
  "Tests use conventional spellings under default options.",
  ["src/lexer.cpp", "src/state.cpp", "src/util/string.cpp", "src/util/rational.cpp", "src/util/bitvector.cpp", "src/expr_parser.cpp"],
  [("tokenizer", "src/lexer.cpp"), ("literal construction", "State::mkLiteral in src/state.cpp"), ("escapes and printing", "src/util/string.cpp, src/literal.cpp"), ("options", "Options::setOption in src/state.cpp")])

p("C16", "No input crashes ethos or is accepted when malformed",
  "On every input, however malformed, ethos terminates with either a response or a located error message; it never crashes, fails an internal assertion, or reads or writes memory out of bounds, even when files are truncated, binary, or spliced from unrelated pieces. An input that is cut off inside a command, or that contains (outside comments) something that is no token, such as a null character in a quoted symbol or string, is never accepted.",
  ["inputs"],
  "For all byte strings, in particular token- and byte-level mutations, truncations and splices of real signatures and proofs, as file, included file, reference or standard input.",
  "Tests contain only well-formed files.",
  ["src/lexer.cpp", "src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp", "src/type_checker.cpp", "src/literal.cpp"],
  [("tokenizer and input buffering", "src/lexer.cpp, src/input.cpp"), ("command and expression parsers", "src/cmd_parser.cpp, src/expr_parser.cpp"), ("evaluation of ill-formed terms", "src/type_checker.cpp, src/literal.cpp")])

p("C17", "The verdict is independent of build profile, channel, layout, cosmetic options",
  "The same text gets the same verdict in the debug and release builds, from a file or standard input, under any white space, line ends and comments between tokens, under any printing, statistics and rule-symbol-table options, and when parts of it are moved into included files. Options given on the command line act like the same options set at the start of the input, and running twice gives the same result.",
  ["configurations", "inputs"],
  "For all accepted and rejected inputs (generated, mutated, and the repository's own) and all combinations of these configurations, including layouts that put tokens at any offset of the read buffer.",
  "Each test is run in one configuration and layout.",
  ["src/main.cpp", "src/input.cpp", "src/lexer.cpp", "src/state.cpp", "src/stats.cpp"],
  [("input channels and buffering", "src/input.cpp, Lexer::nextChar in src/lexer.h"), ("options", "main in src/main.cpp"), ("debug-only code", "src/base/check.h")])

p("C18", "Each file is included once, resolved relative to the including file",
  "Including a file has the effect of its commands exactly once, at the first include, however often and under whatever spelling of its path (relative, absolute, `.`/`..`, repeated separators, symbolic links) it is included, also in cycles; relative paths are resolved against the directory of the file that contains the include, and afterwards resolution continues as before. A file that does not exist or contains an error makes the whole input rejected.",
  ["inputs", "histories"],
  "For all include graphs over directory trees (diamonds, cycles, chains), all path spellings, and --include options.",
  "Tests include one flat directory.",
  ["src/state.cpp", "src/util/filesystem.cpp", "src/main.cpp"],
  [("include handling", "State::includeFile/markIncluded in src/state.cpp"), ("path canonicalisation", "src/util/filesystem.cpp")])

p("C19", "Term identity survives any history of creation and deletion",
  "Two terms written the same way in the same scope are the same term, and terms written differently (after documented desugaring) are different terms, no matter how many terms were created, shared, dropped by leaving scopes or failed evaluations, and created again in between; no history makes ethos use a deleted term. Results of evaluation do not depend on earlier evaluations.",
  ["histories"],
  "For all long histories of pushes, pops, evaluations, local proofs and resets that create and drop overlapping families of terms, with identity probes in between.",
  "Tests are short and rarely drop terms; reuse of memory and stale cache entries need long particular histories.",
  ["src/state.cpp", "src/expr_trie.h", "src/expr.cpp", "src/type_checker.cpp"],
  [("hash consing and garbage collection", "State::mkExprInternal/markDeleted in src/state.cpp, ExprTrie in src/expr_trie.h"), ("reference counting", "src/expr.cpp"), ("caches", "State type/hash caches, evaluation caches in TypeChecker::evaluate")])

p("C20", "Cost follows the shared size of terms, and depth does not overflow",
  "Parsing, type checking, evaluating and comparing terms takes time and memory polynomial in the number of distinct subterms and distinct program calls, not in the size of the unfolded tree, and nesting depth or list length in the tens of thousands neither crashes nor changes the result.",
  ["inputs"],
  "For all term shapes with sharing (let, define, repeated arguments) that unfold exponentially, all recursive programs over them, and deep or long terms in every syntactic position.",
  "Test terms are small; a lost cache or recursion on terms would only be slower on them.",
  ["src/type_checker.cpp", "src/state.cpp", "src/expr.cpp", "src/expr_parser.cpp"],
  [("DAG traversals and call cache", "TypeChecker::evaluate, match, getType in src/type_checker.cpp"), ("iterative parser", "ExprParser::parseExpr in src/expr_parser.cpp"), ("flags and deletion", "src/expr.cpp, State::markDeleted")])

p("C21", "Builtin operators agree with their definitions in Eunoia itself",
  "Each operator that the signature tests/eo-definitions.eo defines as a program over more primitive operators evaluates to the same value as, and is stuck exactly when, that definition is, on all ground arguments.",
  ["inputs"],
  "For every builtin operator with a derived definition there and all ground argument tuples, well kinded or not.",
  "The test that contains the definitions only checks that they parse; nothing compares them with the builtins.",
  ["src/type_checker.cpp", "src/literal.cpp", "tests/eo-definitions.eo"],
  [("builtin evaluation", "TypeChecker::evaluateLiteralOpInternal in src/type_checker.cpp, Literal::evaluate in src/literal.cpp")])

p("C22", "An error is reported at the first offending command",
  "When an input is rejected, the error message names the file that contains the first command that is not acceptable and a line within that command (the line of the symbol, if a symbol is unbound; or where the input ends, if it ends too early), whatever precedes it, through includes; commands before it have taken effect (their echo output appears) and commands after it have not.",
  ["inputs"],
  "For all otherwise accepted inputs with one fault injected at any command of any (included) file, under all layouts.",
  "No test is rejected on purpose, so no test looks at an error position.",
  ["src/lexer.cpp", "src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp"],
  [("positions", "Lexer::bumpSpan, reportError in src/lexer.cpp"), ("echo", "State::echo in src/state.cpp")])

p("C23", "Verdicts are invariant under renaming and irrelevant commands",
  "Consistently renaming user symbols, parameters and step names, swapping independent declarations, adding unused declarations, definitions, rules, programs, echo or set-option commands, annotating terms or declarations with attributes ethos does not use, and dropping unused ones or stated conclusions changes no verdict, on any signature and proof.",
  ["inputs", "programs"],
  "For all the repository's signatures and proofs and all generated ones, and all such edits that do not touch symbols whose spelling the input inspects.",
  "Each test is one spelling and one order of a file.",
  ["src/state.cpp", "src/expr_parser.cpp", "src/cmd_parser.cpp"],
  [("symbol handling", "State::bind in src/state.cpp"), ("term identity", "State::mkSymbolInternal"), ("step checking", "State::notifyStep")])

p("C24", "Bound variables are identified by name and type, in every binder",
  "A binder application is the application of the binder to the list of its variables, built with the binder's list constructor in the order written; the variable bound under a name and type is one and the same term in every binder and in eo::var with that name and type, distinct from variables of another name or type and from constants, and outside the binder the name means what it meant before.",
  ["inputs", "programs"],
  "For all nestings of binders, lists of variables, types (also parametric), shadowing names and macros and programs that take binders apart.",
  "Tests have a few quantifiers with distinct names.",
  ["src/expr_parser.cpp", "src/state.cpp"],
  [("binder parsing", "ExprParser::parseExpr, parseAndBindSortedVarList in src/expr_parser.cpp"), ("bound variable table", "State::getBoundVar/mkBinderList in src/state.cpp")])

p("C25", "Statistics count exactly the rules and programs that were applied",
  "With --stats, an accepted input is followed by the list of the proof rules that its step and step-pop commands applied, each with exactly the number of those commands, wherever they occur (local scopes, included files, before a reset), and of no other rules; --stats-all also lists each program with the number of times it was evaluated on arguments (whether or not a case matched). The counts do not depend on the format (--stats-compact) or the channel, never count more deleted than created terms, and asking for them changes no response.",
  ["histories", "inputs"],
  "For all histories of steps, local assumptions, resets, inclusions and program calls, all names of rules and all combinations of the statistics options.",
  "No test asks for statistics, and only the exit code of tests is looked at.",
  ["src/stats.cpp", "src/stats.h", "src/cmd_parser.cpp", "src/type_checker.cpp", "src/main.cpp"],
  [("printing", "Stats::toString in src/stats.cpp"), ("counting rules", "Token::STEP in CmdParser::parseNextCommand"), ("counting programs", "TypeChecker::evaluateProgramInternal")])

p("C26", "The command line means what the manual says",
  "Options and the file can be given in any order; of an option and its negation the last one counts; --stats-all and --stats-compact imply --stats; --include and --reference files are read in the order given, before the main file or standard input and with the final options, each included file once and at most one reference; --help and --show-config answer and read no file. Files ending in .eo are signatures, on which normalization and `let` options have no effect, all others and standard input are proofs, on which they have exactly their documented effect. An option set by a command in a file has the same effect on what follows there. Any unknown option, second file or missing file is an error, without a response.",
  ["inputs"],
  "For all command lines over the documented options, existing and missing files and malformed arguments, in all orders and multiplicities.",
  "Every test uses one fixed command line of a single file.",
  ["src/main.cpp", "src/state.cpp", "src/lexer.cpp", "src/expr_parser.cpp"],
  [("arguments", "main in src/main.cpp"), ("options", "Options::setOption in src/state.cpp"), ("kinds of files", "State::includeFile in src/state.cpp, Lexer/ExprParser constructors")])

p("C27", "A command that breaks a side condition of its syntax is rejected",
  "A command is rejected, wherever it occurs, if it breaks a condition on its parts: a case of a program that is not an application of that program to as many patterns as it has arguments; a pattern of a program or rule that contains a term to be evaluated; a result, requirement or conclusion with a parameter that the patterns do not bind (an implicit parameter, or one that only occurs in a type, included); a program defined a second time, or under a name that is no program; a rule without arguments whose conclusion is not ground and evaluated; opaque arguments after others, or together with an attribute; an ambiguous function with an attribute or opaque argument; a parameter in a type whose own type has parameters; an attribute of another kind of command, or without its value; datatypes whose number or parameters differ from those announced; rules, includes, push or pop under a local assumption; more pops than pushes; a step of another shape than its rule demands; a definition of another type than its forward declaration; a function type over a term that is no type; a part that is missing, superfluous, or of a wrong kind. The same command without the fault is accepted.",
  ["inputs"],
  "For all well-formed declarations of programs, rules, constants, datatypes and definitions, all such faults at any place in them, and all contexts of scopes, assumptions, includes and resets.",
  "The tests are files that have to be accepted: a condition that is no longer checked, or only in the simplest form of the command, is not noticed.",
  ["src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp"],
  [("conditions of commands", "CmdParser::parseNextCommand in src/cmd_parser.cpp"), ("patterns and bound parameters", "ExprParser::typeCheckProgramPair, ensureBound in src/expr_parser.cpp"), ("datatypes", "ExprParser::parseDatatypesDef in src/expr_parser.cpp"), ("attributes", "ExprParser::parseAttributeList in src/expr_parser.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
