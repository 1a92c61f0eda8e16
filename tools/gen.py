#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

DIFF = "abstract interpretation of SSA + semantic differencing against committed reference semantics"
NOTE = "Every function carrying the property is interpreted over symbolic inputs and proven equal, path region by path region, to a reference semantics argued (DESIGN.md) to satisfy the property; a function the analysis cannot relate is reported UNDECIDED and stays quiet. Trusts go/ssa, the library models and the reference."

p("C01", "Built-in rules are exactly those of RFC 5234 and RFC 7405",
  "The core rules and the ABNF meta-grammar shipped with the library denote exactly the definitions of RFC 5234 (appendix B.1 and section 4) as amended by RFC 7405 and errata 2968 and 3076. Every core rule is present under its own name and no other rule is built in.",
  "inputs", "all inputs matched, directly or through another grammar, against a built-in rule",
  "A test samples a few strings per rule; a wrong bound or a missing alternative only shows on the characters nobody sampled.",
  ["rules.go", "abnf.go"], [("core rule table", "rules.go"), ("meta-grammar table", "rules.go, abnf.go")],
  "constant propagation through the package initialiser; normal-form comparison with the RFC text",
  "Complete for the tables: each of the 40 rules is compared in a normal form (classes merged, alternatives unordered). Trusts the RFC text embedded in the checker and go/ssa.")
p("C02", "No operation modifies the grammar, the built-in rules or its input",
  "Parsing, validating, recognising, printing, generating, compiling and graph building never change the grammar they are given, the built-in rules, the caller's input bytes or a result already handed out. A grammar can therefore be shared and reused: later calls see the same grammar as earlier ones.",
  "histories", "all sequences of calls sharing one grammar, the built-in tables or a buffer",
  "Damage to shared state is only visible to a later, unrelated call; tests use a fresh grammar each time.",
  ["grammar.go", "recognize.go", "regex.go", "transition_graph.go", "generate.go", "ast.go", "fuzz.go", "sppf.go", "bsr.go"], [("write effects of every operation", "whole package")],
  "interprocedural write-effect and alias analysis on SSA")
p("C03", "Equal inputs give equal results",
  "With the same grammar, input, options and seed (or tape), every operation returns the same answer in every run: verdicts, tree counts, regular expressions, generated parsers, generated strings and the sequence of strings read from a transition graph do not depend on map order, time, addresses or hidden randomness. The only exceptions are the order of rules and graph nodes in printed listings, which error is reported first when several apply, and which of several trees is extracted from an ambiguous input.",
  "histories", "all runs, i.e. all map iteration orders and all states of hidden entropy",
  "A test run sees one map order; a dependence on order passes by luck.",
  ["grammar.go", "recognize.go", "leftrec.go", "dag.go", "transition_graph.go", "fuzz.go", "bsr.go", "sppf.go", "codegen.go"], [("map ranges and entropy sources", "whole package")],
  "order-dependence (taint) analysis of map ranges and entropy sources on SSA")
p("C04", "Resource budgets are enforced and reported, never silently truncated",
  "When a caller sets a budget (slots, forest nodes, graph nodes, repetition threshold, regular-expression length, or the element bound of a generated parser), the operation never goes past it, and an operation that would exceed it fails with the dedicated error and no result. Work that fits the budget is unaffected by it, and a non-positive budget means unbounded where documented.",
  "inputs", "all grammars, inputs and budget values",
  "The blow-up needs a grammar just around the bound; tests try one or two sizes.",
  ["sppf.go", "bsr.go", "regex.go", "transition_graph.go", "codegen.go"], [("slot budget", "slotGrammar.reserve, lowerer"), ("forest budget", "gllParser.parse/getNode"), ("graph budget", "tgmachine.reserve"), ("regex budget", "reRenderer.write"), ("element bound", "runtime text in codegen.go")])
p("C05", "ParseABNF accepts exactly well-formed, valid rule lists",
  "ParseABNF returns a grammar if and only if the text is an unambiguous rule list of the ABNF meta-grammar, its definitions are consistent and, unless validation is turned off, every referenced rule exists, every repetition has min at most max and every numeric value is at most U+10FFFF; otherwise it returns no grammar and an error of the documented kind.",
  "inputs", "all texts and option settings",
  "Each rejected class is infinite and nested arbitrarily deep in groups and options; tests sample shallow ones.",
  ["grammar.go", "utils.go", "dag.go", "option.go"], [("gate", "ParseABNF"), ("validation", "SemvalABNF, semvalAlternation, checkBounds")])
p("C06", "Terminals mean the same in every engine",
  "A quoted string matches its characters, ignoring ASCII case only when it is not case-sensitive; a numeric series matches exactly its code points in order; a numeric range matches exactly one code point within its bounds inclusive; prose matches nothing. The recogniser, both parsing engines, generated parsers, the regular expression, the transition graph and the generators all give terminals this meaning, byte-exact on malformed UTF-8.",
  "inputs", "all terminals and all input bytes",
  "The seven implementations agree on ordinary letters; they part on boundary code points, non-ASCII case, invalid UTF-8 and empty literals.",
  ["recognize.go", "sppf.go", "bsr.go", "codegen.go", "regex.go", "fuzz.go", "transition_graph.go", "ast.go", "generate.go"], [("terminal matchers", "recognizer.computeElem, gllParser.matchTerm, bsrParser.matchTerm, codegen.emitMatch, reBuilder.elem, nodeEmit")])
p("C07", "Repetition bounds are honoured everywhere",
  "An element repeated min to max times is matched, generated, rendered and graphed with at least min and at most max occurrences, both inclusive, with no upper limit when none is written; an exact count, a missing minimum (zero) and a missing maximum (unbounded) are read as such from ABNF text. Unsatisfiable bounds match nothing.",
  "inputs", "all bounds, elements (nullable ones included) and inputs",
  "Off-by-one at a bound, or at nullable elements, needs exactly that count in exactly that engine.",
  ["recognize.go", "sppf.go", "bsr.go", "regex.go", "transition_graph.go", "generate.go", "ast.go", "codegen.go", "grammar.go"], [("bounds", "lowerer.rep, addRepAlts, reachRep, quantifier, repGraph, genRep, emitCall, parseRepeat")])
p("C08", "Memoisation and interning never conflate or lose states",
  "Caches used while recognising, parsing, lowering, generating code or building graphs only reuse a result for the very same question: two states that could behave differently are never treated as one, a provisional result is never cached as final, and a state is never dropped because a different one was seen.",
  "histories", "all orders in which sub-problems are met and revisited",
  "A collision needs two sub-problems that differ only in the forgotten component, met in the wrong order.",
  ["sppf.go", "bsr.go", "recognize.go", "codegen.go", "transition_graph.go", "fuzz.go"], [("intern keys", "gssNodeFor, findNode, getNodeP/T, canon, record, seriesVar, memo keys")])
p("C09", "The forest engine is exact",
  "Parsing into a forest succeeds exactly for the inputs derivable from the root rule, for any grammar including ambiguous, left-recursive and nullable ones, and the forest records every derivation: every work item is processed once for each distinct state, and every return to a caller is delivered for results found before and after the call was made.",
  "schedules", "all grammars, inputs and orders in which work items are processed",
  "A lost return or descriptor shows only when a result is found before its caller registers, which depends on grammar shape and input.",
  ["sppf.go"], [("worklist, GSS, packed nodes", "gllParser.*"), ("lowering", "lowerer.*")])
p("C10", "The binary-subtree engine is exact",
  "Parsing into a binary-subtree set succeeds exactly for the inputs derivable from the root rule, for any grammar including ambiguous, left-recursive and nullable ones, and the set records every derivation.",
  "schedules", "all grammars, inputs and orders in which work items are processed",
  "As for the forest engine: lost contributions need a particular meeting order.",
  ["bsr.go", "sppf.go"], [("worklist and BSR set", "bsrParser.*"), ("queries", "BSRForest.*")])
p("C11", "Cyclic rules are detected exactly and refused where required",
  "A rule is reported cyclic if and only if it can reach a rule that can reach itself, through any nesting of groups, options, repetitions and other rules and whatever the letter case of the references; a grammar is reported acyclic exactly when no rule can reach itself. Regular-expression and transition-graph construction refuse cyclic rules with the cyclic-rule error instead of diverging.",
  "inputs", "all grammars and rule names",
  "Cycles through several rules, through core-rule overrides or with mixed-case references are not sampled.",
  ["dag.go", "regex.go", "transition_graph.go", "generate.go"], [("dependency graph and SCCs", "getDependencies, cycle.strongconnect, ruleCycleVisit"), ("refusal", "Grammar.Regex, Grammar.TransitionGraph")])
p("C12", "Failures are reported, never swallowed",
  "Whenever a step of an operation fails, the operation returns a non-nil error that identifies the cause and no result; it never returns a partial result as if it were complete. The command-line tools exit with a non-zero status on every failure, and do not print or write an output for it.",
  "fault_sequences", "all failing steps of all operations",
  "Each error path needs its own failing input or environment; most are never exercised.",
  ["grammar.go", "sppf.go", "bsr.go", "regex.go", "transition_graph.go", "generate.go", "codegen.go", "cmd/abnf-gen/main.go", "cmd/pap"], [("error propagation", "every function returning an error"), ("exit codes", "cmd/abnf-gen, cmd/pap")])
p("C13", "Rule names are case-insensitive and user rules shadow core rules",
  "Wherever a rule is looked up by name, in a reference, as a root or when a definition is extended, letter case is ignored, and a definition in the grammar takes precedence over the core rule of the same name. No operation gives a different answer when only the case of a rule name changes.",
  "inputs", "all grammars and spellings of rule names",
  "Tests spell references as they are defined.",
  ["utils.go", "sppf.go", "recognize.go", "leftrec.go", "dag.go", "regex.go", "transition_graph.go", "generate.go", "ast.go"], [("lookup", "GetRule, getRuleIn, canon"), ("name keys", "strings.ToLower sites")])
p("C14", "Generated parsers always compile, on the standard library alone",
  "For every grammar and root it accepts, the parser generator emits one well-formed Go file in the requested package that compiles without unused or missing imports and imports only the standard library.",
  "inputs", "all grammars, roots and package names",
  "Compilability depends on which terminals, empty rules and names occur together.",
  ["codegen.go", "cmd/abnf-gen/main.go"], [("emitters", "codegen.emit*"), ("imports", "codegen.emitImports, scanUTF8")],
  "parsing and type-checking of the embedded runtime text; semantic differencing of the emitters")
p("C15", "Negative test inputs are really invalid; expected octets are exact",
  "A near-miss returned by the generator is always rejected by the grammar and differs from the production it was derived from, and none is returned when none was verified. The expected-next query reports exactly the octets that extend the prefix towards a word, and accepts exactly the prefixes that are words.",
  "inputs", "all tapes, prefixes and grammars",
  "An unverified candidate is usually invalid anyway; only redundant grammars expose it.",
  ["fuzz.go"], [("verification", "Generator.NearMiss"), ("frontier simulation", "Generator.ExpectedNext, nodeEmissions")])
p("C16", "Numeric values convert exactly and never wrap",
  "A numeric value is read in its written base exactly, however long; a value too large for the internal representation saturates above every Unicode character instead of wrapping or panicking, so it matches nothing. Strict validation rejects exactly the values above U+10FFFF in each base, leading zeros ignored.",
  "inputs", "all digit strings in all bases",
  "Overflow thresholds differ per base; tests hit a few.",
  ["utils.go", "grammar.go", "transition_graph.go", "fuzz.go", "codegen.go"], [("conversion", "numvalToUint64, numvalToInt32, numvalToRune"), ("bounds", "checkBounds")])
p("C17", "Definitions combine as = and =/ require",
  "A second = definition of a rule is an error, =/ appends its alternatives after the existing ones of a rule already defined and is an error otherwise, and core rules can be neither defined nor extended unless redefinition is enabled. These hold irrespective of letter case and of how the pieces are interleaved, and extending a core rule leaves the built-in one untouched.",
  "histories", "all sequences of definitions",
  "The outcome depends on the order, case and kind of several definitions together.",
  ["grammar.go", "utils.go", "option.go"], [("rule list evaluation", "feval.rulelist, feval.rule")])
p("C18", "Every kind of element is handled in every operation",
  "Each operation that walks a grammar treats rule references, groups, options, quoted strings, numeric values and prose in each position they can occur; none of them is skipped, and none makes the operation panic.",
  "inputs", "all grammars",
  "A missing case is invisible until that element kind occurs in that operation.",
  ["abnf.go", "recognize.go", "sppf.go", "regex.go", "transition_graph.go", "generate.go", "ast.go", "dag.go", "leftrec.go", "grammar.go", "codegen.go"], [("dispatch on element kinds", "every switch on an element")],
  "exhaustiveness analysis of dispatches on the element interface + semantic differencing")
p("C19", "Printing a grammar loses nothing",
  "The printed form of every rule, repetition, group, option, literal and numeric value is ABNF text that denotes the same thing: bounds, case sensitivity, base, range or series status, grouping and order are preserved, and both grammar printers list every rule of the grammar.",
  "inputs", "all grammars",
  "Round trips are tested for a few grammars; a construct printed ambiguously needs its particular nesting.",
  ["abnf.go", "grammar.go"], [("printers", "*.String, Grammar.String, Grammar.PrettyPrint")])
p("C20", "Missing rules are reported by every operation that needs them",
  "Asking any operation for a root rule that does not exist fails with the rule-not-found error naming it, and never panics. Operations that cannot proceed with a reference to an undefined rule (validation, regular expressions, generation, expanded transition graphs) report it; recognition and parsing treat such a reference as matching nothing.",
  "inputs", "all grammars built without validation and all rule names",
  "Undefined references only occur in hand-built or unvalidated grammars.",
  ["grammar.go", "sppf.go", "regex.go", "transition_graph.go", "generate.go", "ast.go", "utils.go"], [("lookups", "GetRule call sites")])
p("C21", "Diagnostics point at the furthest failure",
  "When ABNF text or an input does not parse, the reported offset is the furthest position at which some terminal was tried and failed, line and column are computed from it, and the expectations listed are exactly the terminals tried and failed there, without duplicates and in a stable order. A parse error still matches the no-solution error.",
  "inputs", "all rejected inputs",
  "The furthest position differs from the last tried one only on inputs with backtracking alternatives.",
  ["sppf.go", "errors.go"], [("tracking", "gllParser.noteFail"), ("rendering", "newParseError, ParseError.Error")])
p("C22", "Generated strings belong to the grammar",
  "Every string produced by random generation, by the graph-walking generator and by the tree generator is derivable from the rule it was asked for, for every seed, tape and option setting; numeric values outside Unicode and prose are never emitted as if they matched.",
  "inputs", "all grammars, seeds, tapes and budgets",
  "Wrong strings appear only when a budget cuts a walk at a particular point or a rare choice is drawn.",
  ["generate.go", "fuzz.go", "ast.go", "transition_graph.go"], [("walks", "generateAlt, Generator.walk, ASTGenerator.genAlt")])
p("C23", "Left recursion and nullability are resolved to the least fixpoint",
  "A rule is treated as possibly empty exactly when it derives the empty string, left recursion is detected exactly (direct, mutual and hidden behind empty parts), and recognition of left-recursive rules yields precisely the derivable end positions.",
  "inputs", "all grammars with recursive rules",
  "Hidden left recursion through nullable prefixes and mutual recursion combine in unbounded ways.",
  ["leftrec.go", "recognize.go", "dag.go"], [("nullability", "nullableRules, altNullable"), ("left-corner SCCs", "leftRecursiveSCCs"), ("seed growing", "reachLeftRec")])
p("C24", "The recogniser decides derivability of the whole input",
  "Recognition returns true exactly when the entire input, no more and no less, is derivable from the rule, for every grammar and every byte string, and always terminates.",
  "inputs", "all grammars and inputs",
  "The verdict aggregates sets of positions over all derivations; tests sample grammars and short strings.",
  ["recognize.go", "leftrec.go", "grammar.go"], [("reachable positions", "recognizer.*")])
p("C25", "Regular expressions are rendered exactly",
  "The regular expression built for an acyclic rule has the meaning of the rule: alternatives, sequences and repetitions are parenthesised as precedence requires, every special character is escaped, letters of case-insensitive literals become both cases, ranges become classes with the same bounds, and bounds become the matching quantifier.",
  "inputs", "all acyclic rules",
  "Precedence and escaping errors need a particular nesting or character.",
  ["regex.go"], [("construction", "reBuilder.*, simplify"), ("rendering", "reRenderer.*, renderClass, quantifier")])
p("C26", "Transition graphs connect what the rule connects",
  "In the transition graph of a rule, the entrypoints, the endpoints, the empty option and the edges are exactly those given by the rule's alternatives, sequences and repetitions; expanded copies are disjoint from their originals, so that extending one never changes another, and printed graphs show every node and edge.",
  "inputs", "all acyclic rules and deflation options",
  "Aliasing between copies and missing edges only matter for nested repetitions of nullable parts.",
  ["transition_graph.go"], [("construction", "tgmachine.*, concatTransitionGraphs, chainTransitionGraph"), ("cloning", "cloneTransitionGraph, cloneTG")])
p("C27", "Reading a graph is sound, complete and finite",
  "A graph reader only yields strings spelled by walks from an entrypoint to an endpoint, yields every trail and every terminal variation in the exhaustive mode, covers every usable node, edge and terminal value in the compact mode, never yields after reporting the end, and always ends.",
  "inputs", "all graphs, cyclic ones included",
  "Coverage gaps need a graph where one walk shadows another.",
  ["transition_graph.go"], [("trail enumeration", "TransitionGraphReader.*"), ("compact covering", "buildCompact"), ("variations", "nodeEmit")])
p("C28", "Generation always terminates within its budgets",
  "Every generator stops for every grammar it accepts, seed and tape: depth, length, repetition and step budgets are checked before each expansion, and once one is reached the generator takes a completion that is known to be finite. Budgets only bound, they never make a generator return a string outside the grammar.",
  "inputs", "all grammars, seeds, tapes and budgets",
  "Divergence needs a recursive grammar and an unlucky sequence of choices.",
  ["generate.go", "fuzz.go", "ast.go"], [("budgets", "ASTGenerator.over/costAlt, Generator.walk, generateKeepGoing")])
p("C29", "Options set exactly their own knob",
  "Each functional option changes only the setting it is named after, to the value given; later options win over earlier ones, and without options the documented defaults apply. The command-line flags are passed to the option of the same name.",
  "inputs", "all combinations and orders of options",
  "Tests use one option at a time.",
  ["option.go", "sppf.go", "regex.go", "transition_graph.go", "generate.go", "fuzz.go", "ast.go", "cmd/pap/commands"], [("options", "With*, apply methods")])
p("C30", "Tree counts, ambiguity and extracted trees agree with the forest",
  "An input is valid exactly when a root derivation is recorded, the number of trees is the exact (arbitrarily large or infinite) number of recorded derivations, ambiguity means more than one, and an extracted tree is one of the recorded derivations with every rule's span and children in input order; an invalid input has no tree.",
  "inputs", "all forests, cyclic and highly ambiguous ones included",
  "Counts overflow, cycles and shared nodes only occur on ambiguous grammars far from the samples.",
  ["sppf.go", "bsr.go", "codegen.go"], [("queries", "Forest.*, BSRForest.*, generated Result")])
p("C31", "Generated parsers behave like the library",
  "A generated parser gives the same verdict, number of trees, ambiguity and tree as the library's binary-subtree engine for the same grammar, root and input, and reports its element bound with its error.",
  "inputs", "all grammars and inputs",
  "Generated code differs per grammar; tests compile a handful.",
  ["codegen.go"], [("emitted control flow", "codegen.emitProcess, emitCall, emitTerminal, emitMetadata"), ("fixed runtime", "headerBoilerplate, queryBoilerplate")])
p("C33", "Evaluating ABNF text yields the grammar it denotes",
  "The grammar returned for a text has, for each rule, exactly the alternatives, sequences, repetition bounds, groups, options, references and terminals written, in the written order, with case sensitivity, base and series or range status as written.",
  "inputs", "all ABNF texts",
  "Constructs combine without bound; tests compare a few texts.",
  ["grammar.go"], [("evaluation", "feval.*")])
p("C32", "No operation panics",
  "No public operation panics, whatever grammar (built by hand or parsed without validation), rule name, input bytes, seed, tape or option it is given, except on nil grammars or nil forests.",
  "inputs", "all arguments of all public operations",
  "A panic needs the one input that reaches an unguarded index, assertion or dereference.",
  ["sppf.go", "bsr.go", "recognize.go", "regex.go", "transition_graph.go", "generate.go", "fuzz.go", "ast.go", "utils.go", "grammar.go"], [("index, slice, assertion, division and explicit panic sites", "whole package")],
  "interval/zone analysis of index, slice, division and assertion sites")
NA = [
 ("C40", "The engines agree on every verdict", "For every grammar, rule and input the recogniser, the forest engine, the binary-subtree engine and a generated parser accept or all reject.",
  ["recognize.go", "sppf.go", "bsr.go", "codegen.go"], "Equality of languages computed by four worklist algorithms quantifies over run-time sets of positions and descriptors; no sound static argument in reach bounds them. The components (C06-C10, C13, C23, C24, C31) are decided instead."),
 ("C41", "Tree counts agree between representations", "For every grammar and input the forest, the subtree set and a generated parser report the same number of trees.",
  ["sppf.go", "bsr.go", "codegen.go"], "Equality of two counting recursions over run-time graphs; needs relational reasoning about heap contents that static analysis cannot supply. C30 decides each count's own recursion."),
 ("C42", "Regular expressions accept the rule's language", "For every acyclic rule the regular expression matches exactly the strings of the rule.",
  ["regex.go"], "Language equality between a grammar and a string interpreted by the regexp package; the rendered string is a run-time quantity. C25 decides the construction step by step."),
 ("C43", "Graph walks spell exactly the rule's strings", "For every acyclic rule the walks of its transition graph spell exactly the strings of the rule.",
  ["transition_graph.go"], "Language equality over a heap graph built at run time; C26 and C27 decide the construction and reading steps."),
 ("C44", "Printing then parsing returns an equal grammar", "Parsing the printed form of a valid grammar yields an equal grammar.",
  ["abnf.go", "grammar.go"], "Composes a printer with the GLL engine run on its output; the composition is a run-time computation. C19 and C33 decide the two halves separately."),
 ("C45", "Parsing is cubic and memory is bounded by it", "Parsing time and memory grow at most cubically with the input.",
  ["sppf.go", "bsr.go"], "Amortised complexity over dynamically deduplicated worklists; not a statically decidable bound here. C08 decides that deduplication keys are kept."),
]
KINDS = None
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        o = dict(id=q["id"], title=q["title"], statement=q["statement"],
                 quantifier={"over": [q["over"]], "text": q["text"]},
                 why_tests_cant=q["why"],
                 anchors={"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]})
        f.write(json.dumps(o) + "\n")
    for id, t, s, files, r in NA:
        o = dict(id=id, title=t, statement=s, quantifier={"over": ["inputs"], "text": "all grammars and inputs"},
                 why_tests_cant="It quantifies over all grammars and inputs.",
                 anchors={"files": files, "mechanism": [{"name": "engines", "where": ", ".join(files)}]})
        f.write(json.dumps(o) + "\n")
skip = set(open(os.path.join(here, "tools", "unclaimed")).read().split()) if os.path.exists(os.path.join(here, "tools", "unclaimed")) else set()
checks = []
for q in sorted(P, key=lambda q: q["id"]):
    if q["id"] in skip: continue
    checks.append(dict(property=q["id"], quick_cmd="./run.sh " + q["id"], thorough_cmd="./run.sh -tier thorough " + q["id"],
                       technique=q["technique"] or DIFF, level="other", level_note=q["note"] or NOTE))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks,
           not_applicable=[dict(property=id, reason=r) for id, t, s, files, r in NA] + [dict(property=i, reason="check under construction") for i in sorted(skip)],
           notes="Everything is decided by the static analyser in checker/ (Go, vendored golang.org/x/tools) from /repo's current source; nothing of /repo is executed.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
