package main

func init() {
	prop("C01", "The package initialiser is interpreted abstractly (constant propagation through literals and helper calls) and every entry of the core-rule and meta-grammar tables is compared, in a normal form (character classes merged, alternatives unordered, groups flattened), with the RFC text embedded in the checker.", runC01)
	prop("C02", "Ownership: for every function, the memory each write, kept reference and returned container may belong to (allocated by the function itself, its caller's, a package variable's) is computed on SSA; an effect on shared memory that the reference semantics does not have is a violation.", runC02,
		"feval.rulelist feval.rule duplicateMap cloneSet cloneBytes cloneTransitionGraph cloneTG")
	prop("C03", "Sources of variation (map iteration, clocks, global or cryptographic randomness, addresses, goroutines) are located on SSA and followed into results (ordered containers and text built while ranging over a map and not sorted, entries returned from the middle of a range, numbering in range order); one that the reference semantics keeps out of its results is a violation.", runC03,
		"*Source.intn newParseError normalizeRanges tgNodeID edgeStr")
	prop("C18", "Element dispatch: every function that tells element kinds apart has a case for each kind its reference semantics treats.", runC18,
		"recognizer.computeElem lowerer.elem reBuilder.elem tgmachine.elemGraph generateAlt ASTGenerator.genElem ASTGenerator.costElem appendDeps leftCornerDeps elemNullable altNullable semvalAlternation checkRulesDefined checkCanGenerateSafely* nodeEmit nodeEmissions elemToString feval.element *.String ruleCycleVisit codegen.emit* gllParser.matchTerm bsrParser.matchTerm newNode cloneTG producing")
	prop("C32", "Partial operations (index, slice, nil dereference, division, type assertion, explicit panic, library calls with a precondition) are obligations against the path facts; a function equal to its reference semantics inherits the argument for the open ones, a function that departs from it may not have an open obligation of its own.", runC32)
	prop("C04", "Resource budgets are enforced and an exceeded budget surfaces as its error, never as a partial result.", nil,
		"lowerer.* compileSlots slotGrammar.reserve ParseForest ParseBSR gllParser.parse gllParser.getNode? gllParser.findNode bsrParser.parse bsrParser.record",
		"tgmachine.* chainTransitionGraph cloneTransitionGraph cloneTG countReachable Grammar.TransitionGraph reRenderer.* Grammar.Regex WithMax* WithRepetitionThreshold WithThreshold WithRepMax maxNodesOption.apply repetitionThreshold.apply *OptionFunc.apply* rt/Parse rt/parser.record rt/parser.add rt/parser.create Err*TooLarge.Error ErrMaxNodesExceeded.Error",
		"codegen.emitSeed GenerateGoParser")
	prop("C05", "ParseABNF returns a grammar exactly when the text is an unambiguous ABNF rule list whose evaluation and (when enabled) semantic validation succeed.", nil,
		"ParseABNF Parse EvaluateABNF evalForest SemvalABNF semvalAlternation checkBounds process validateOption.apply redefineCoreOption.apply WithValidation WithRedefineCoreRules feval.* ptFirst ptChildren getDependencies appendDeps GetRule getRuleIn Forest.Valid Forest.Ambiguous Forest.ParseError newParseError ParseError.* CLOSE")
	prop("C06", "Every engine gives terminals (char-val, num-val series and ranges) the same meaning.", nil,
		"gllParser.matchTerm bsrParser.matchTerm recognizer.computeElem codegen.emit* codegen.seriesVar codegen.scanUTF8 foldByte foldRune flipASCIICase isASCIILetter rt/fold? rt/bytesEqual sensequal runeMin runeMax numvalTo* int32ToNumval baseRadix nodeEmit nodeEmissions charClass classEscape regescape reBuilder.elem renderClass normalizeRanges ASTGenerator.genElem ASTGenerator.costElem generateAlt isEmpty isNever tgmachine.elemGraph producing simplify numvalRange octetSet.* elemNullable appendPtr codegen.scanUTF8")
	prop("C07", "Every engine admits between min and max occurrences of a repetition, inclusive, and none otherwise.", nil,
		"lowerer.rep lowerer.option lowerer.alts lowerer.elem gllParser.addRepAlts bsrParser.addRepAlts gllParser.process bsrParser.process capRC recognizer.reachRep repNullable quantifier reBuilder.concat reBuilder.alt simplify ASTGenerator.genRep ASTGenerator.costConcat ASTGenerator.genConcat generateAlt tgmachine.repGraph chainTransitionGraph concatTransitionGraphs cloneTransitionGraph cloneTG feval.repetition feval.parseRepeat Repetition.String codegen.emitProcess codegen.emitCall codegen.emit codegen.emitMetadata codegen.emitSeed checkCanGenerateSafely* leftCornerDeps addClamp mulClamp semvalAlternation")
	prop("C08", "Memoisation and interning never conflate two different states and never lose one.", nil,
		"gllParser.gssNodeFor gllParser.findNode gllParser.getNode? gllParser.create gllParser.add gllParser.pop gllParser.addRepAlts bsrParser.gssNodeFor bsrParser.create bsrParser.add bsrParser.pop bsrParser.record bsrParser.addRepAlts canon lowerer.* compileSlots slotGrammar.reserve recognizer.reach* cloneSet rt/parser.* tgmachine.elemGraph reBuilder.rule Generator.emissions BSRForest.buildIndex BSRForest.startElems rt/Result.buildIndex gnode.addPack codegen.compID codegen.seriesVar codegen.assignSlots capRC Forest.collect* BSRForest.collect* cloneTG cloneTransitionGraph simplify")
	prop("C09", "The parse-forest engine accepts exactly the derivable inputs and records every derivation.", nil,
		"gllParser.* gnode.addPack lowerer.* compileSlots slotGrammar.reserve ParseForest Parse Forest.Valid canon capRC newParseError CLOSE")
	prop("C10", "The binary-subtree engine accepts exactly the derivable inputs and records every derivation.", nil,
		"bsrParser.* ParseBSR BSRForest.* lowerer.* compileSlots canon capRC CLOSE")
	prop("C11", "Operations that need an acyclic rule refuse cyclic ones, and the dependency queries are exact.", runKinds,
		"Grammar.Regex Grammar.TransitionGraph Grammar.RuleContainsCycle Grammar.IsDAG Grammar.DependencyGraph ruleContainsCycle ruleCycleVisit getDependencies appendDeps cycle.* Depgraph.Mermaid reBuilder.rule checkCanGenerateSafely* Grammar.Generate checkRulesDefined Grammar.leftRecursiveSCCs ErrCyclicRule.Error duplicateMap")
	prop("C12", "Failures are reported: library errors reach the caller and the commands exit non-zero without writing output.", nil,
		"abnf-gen/* pap/* pap-main/* GenerateGoParser GenerateGoParserFromABNF ParseABNF Parse EvaluateABNF evalForest feval.* compileSlots lowerer.* ParseForest ParseBSR gllParser.parse bsrParser.parse Grammar.IsValid Grammar.Generate Grammar.Regex Grammar.TransitionGraph Grammar.RuleContainsCycle NewGenerator NewASTGenerator newNode cloneTG tgmachine.* reBuilder.* reRenderer.* generateAlt checkRulesDefined checkCanGenerateSafely* SemvalABNF semvalAlternation checkBounds Err*.Error ParseError.* newParseError Forest.ParseError rt/Parse numvalToUint64")
	prop("C13", "Rule names are compared without regard to case everywhere, and a user's definition shadows the core rule.", nil,
		"GetRule getRuleIn canon lowerer.rule lowerer.elem compileSlots Grammar.IsValid recognizer.reachElem recognizer.reachLeftRec recognizer.computeElem Grammar.nullableRules Grammar.leftRecursiveSCCs leftCornerDeps elemNullable Grammar.DependencyGraph getDependencies appendDeps Grammar.IsDAG Grammar.RuleContainsCycle ruleContainsCycle ruleCycleVisit cycle.* feval.rulelist SemvalABNF reBuilder.rule reBuilder.elem Grammar.Regex Grammar.TransitionGraph tgmachine.elemGraph Grammar.Generate generateAlt checkRulesDefined checkCanGenerateSafely* NewASTGenerator ASTGenerator.costElem ASTGenerator.genElem GenerateGoParser ParseForest ParseBSR")
	prop("C14", "The fixed text of generated parsers is assembled, parsed and type-checked on its own; import literals may only name the standard library; the emitting functions keep their reference semantics.", runC14,
		"codegen.* GenerateGoParser GenerateGoParserFromABNF sanitizeComment symStr abnf-gen/* foldByte foldRune numvalToRune numvalToInt32 rt/*")
	prop("C15", "NearMiss only returns strings the grammar rejects, and ExpectedNext reports exactly the octets that may follow.", nil,
		"Generator.NearMiss* Generator.nearMissCandidates Generator.ExpectedNext Generator.emissions nodeEmissions octetSet.* numvalRange cloneBytes Generator.walk NewGenerator Grammar.IsValid CLOSE")
	prop("C16", "Numeric values convert exactly or saturate, in every base; validation rejects exactly those above U+10FFFF.", nil,
		"numvalTo* baseRadix int32ToNumval checkBounds semvalAlternation ErrTooLargeNumeral.Error feval.numVal nodeEmit nodeEmissions numvalRange tgmachine.elemGraph codegen.emit* codegen.seriesVar codegen.scanUTF8 reBuilder.elem recognizer.computeElem gllParser.matchTerm bsrParser.matchTerm ASTGenerator.genElem ASTGenerator.costElem generateAlt ElemNumVal.String feval.parseRepeat")
	prop("C17", "Definitions accumulate by the ABNF rules for = and =/, and core rules are protected unless redefinition is enabled.", nil,
		"feval.rulelist feval.rule GetRule getRuleIn process redefineCoreOption.apply WithRedefineCoreRules ErrDuplicatedRule.Error ErrCoreRuleModify.Error ErrRuleNotFound.Error ParseABNF EvaluateABNF evalForest feval.* ptFirst ptChildren")
	prop("C19", "Printing a grammar loses nothing: each construct prints as ABNF that denotes it.", nil,
		"*.String Grammar.PrettyPrint semvalAlternation elemToString TransitionGraph.ToMermaid mapNodes Depgraph.Mermaid")
	prop("C20", "A reference to a rule that does not exist is reported, by every operation that would need it.", nil,
		"checkRulesDefined Grammar.IsValid Grammar.Regex Grammar.TransitionGraph Grammar.Generate Grammar.RuleContainsCycle compileSlots lowerer.rule lowerer.elem ParseForest ParseBSR NewASTGenerator NewGenerator SemvalABNF GetRule getRuleIn reBuilder.rule reBuilder.elem tgmachine.elemGraph generateAlt GenerateGoParser GenerateGoParserFromABNF ErrRuleNotFound.Error ErrDependencyNotFound.Error getDependencies appendDeps feval.rulelist recognizer.computeElem checkCanGenerateSafely*")
	prop("C21", "Parse diagnostics point at the furthest position reached and list what was expected there.", nil,
		"gllParser.noteFail gllParser.matchTerm gllParser.process gllParser.parse newParseError ParseError.* describeByte Forest.ParseError ParseForest ParseABNF gllParser.*")
	prop("C22", "Every string a generator emits is derivable from the rule it was asked for.", nil,
		"Generator.Generate* Generator.walk Generator.nearestToEnd NewGenerator nodeEmit producing tgNodeID ASTGenerator.* NewASTGenerator Grammar.Generate generateAlt generateKeepGoing checkCanGenerateSafely* checkRulesDefined *Source.intn WithMax* WithRep* WithThreshold WithStableAddressing *Option*.apply addClamp mulClamp flipASCIICase isASCIILetter tgmachine.* concatTransitionGraphs chainTransitionGraph cloneTransitionGraph cloneTG appendNodes CLOSE")
	prop("C23", "Left recursion and nullability are detected exactly and resolved to the least fixpoint.", nil,
		"Grammar.nullableRules Grammar.leftRecursiveSCCs altNullable repNullable elemNullable leftCornerDeps recognizer.reachLeftRec recognizer.reachElem cycle.* appendDeps cloneSet Grammar.IsValid CLOSE")
	prop("C24", "The recogniser answers whether the whole input is derivable.", nil,
		"Grammar.IsValid recognizer.* cloneSet sensequal runeMin numvalTo* baseRadix GetRule getRuleIn Grammar.nullableRules Grammar.leftRecursiveSCCs altNullable repNullable elemNullable leftCornerDeps cycle.* appendDeps")
	prop("C25", "Regular expressions render every construct with the right precedence, escaping, case and bounds.", nil,
		"re*.prec reBuilder.* reRenderer.* simplify quantifier renderClass normalizeRanges charClass classEscape regescape isEmpty isNever Grammar.Regex WithMaxRegexLen regexOptionFunc.applyRegex ErrRegexTooLarge.Error CLOSE")
	prop("C26", "Transition graphs connect exactly the element sequences the rule allows.", nil,
		"Grammar.TransitionGraph tgmachine.* concatTransitionGraphs chainTransitionGraph cloneTransitionGraph cloneTG appendNodes newNode countReachable TransitionGraph.ToMermaid mapNodes elemToString *deflate*.apply WithDeflate* repetitionThreshold.apply tgNodeID SemvalABNF CLOSE")
	prop("C27", "Reading a transition graph yields only entry-to-end walks and covers every node, edge and terminal value.", nil,
		"TransitionGraph.Reader TransitionGraphReader.* edgeStr producing tgNodeID nodeEmit WithCoverageMode coverageModeOption.apply CLOSE")
	prop("C28", "Generators always terminate within their depth, length, repetition and step budgets.", nil,
		"ASTGenerator.* NewASTGenerator Generator.walk Generator.nearestToEnd NewGenerator Grammar.Generate generateAlt generateKeepGoing checkCanGenerateSafely* checkRulesDefined addClamp mulClamp WithMaxDepth WithMaxLen WithMaxLength WithMaxReps WithMaxRepeat WithMaxSteps WithRepMax WithThreshold *OptionFunc.apply repMaxOption.apply thresholdOption.apply *Source.intn Generator.Generate* CLOSE")
	prop("C29", "Each option sets its own setting to the given value and nothing else, and the defaults are as documented.", runCommands,
		"With* *ption.apply *ptionFunc.apply* deflateCharVals.apply repetitionThreshold.apply process ParseForest ParseBSR Grammar.Generate Grammar.Regex Grammar.TransitionGraph TransitionGraph.Reader NewGenerator NewASTGenerator pap/* pap-main/* abnf-gen/*")
	prop("C30", "Validity, ambiguity, tree counts and the extracted tree are consistent with the recorded derivations.", nil,
		"Forest.* BSRForest.* rt/Result.* gnode.addPack symStr codegen.emitMetadata gllParser.* bsrParser.*")
	prop("C31", "A generated parser behaves like the library's engine on the same grammar and root.", nil,
		"rt/* codegen.* GenerateGoParser GenerateGoParserFromABNF sanitizeComment foldByte foldRune symStr compileSlots lowerer.* bsrParser.* BSRForest.* canon capRC")
	prop("C33", "Evaluating ABNF source yields the grammar it denotes.", nil,
		"feval.* ptFirst ptChildren evalForest EvaluateABNF Forest.Tree Forest.collect* Forest.emitSymbol numvalTo* baseRadix CLOSE")
}
