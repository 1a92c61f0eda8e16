From d428a56f8232bcca3f929492207d8fc817f67004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:16 +0000
Subject: [PATCH 01/16] fix: print case-sensitive char-vals with their %s
 marker

ElemCharVal.String dropped the RFC 7405 sensitivity marker, so printing a
grammar changed its language, and the recognizer memo and the lowering
intern keys (built from String) conflated %s"a" with "a".
---
 abnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..a8e413f 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,9 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From c8db5594e0054d82e95a6b8fe261de475b04aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:09 +0000
Subject: [PATCH 02/16] fix: do not memoize recognizer results that depend on a
 growing seed

A group or option that embeds a left-recursive rule was cached with the
provisional seed of the first growth round, so IsValid rejected words the
rule derives, e.g. a = (a "x") / "y" on "yx".
---
 recognize.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..488d5e1 100644
--- a/recognize.go
+++ b/recognize.go
@@ -31,6 +31,10 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+
+	// seedReads counts how many times a still-growing seed has been handed out.
+	// A result computed while it moved is provisional and must not be memoized.
+	seedReads int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -141,14 +145,17 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 		return map[int]bool{}
 	}
 	r.inProgress[key] = true
+	reads := r.seedReads
 	out := r.computeElem(elem, index)
 	delete(r.inProgress, key)
-	// Safe to cache: a rule reached here either is independent of any actively
-	// growing seed, or is itself a growing SCC member (handled by reachLeftRec
-	// via r.growing, not this path). A lower left-corner SCC cannot reference
-	// the SCC growing above it -- they would be one SCC -- so its result is
-	// stable. Caching nested SCCs is what keeps left recursion polynomial.
-	r.memo[key] = cloneSet(out)
+	// A rule reached here is independent of any actively growing seed: it would
+	// be part of the SCC (handled by reachLeftRec via r.growing) otherwise. But a
+	// group or option may embed a growing SCC member, e.g. a = (a "x") / "y", so
+	// only cache a result that did not depend on a provisional seed. Caching
+	// nested SCCs is what keeps left recursion polynomial.
+	if r.seedReads == reads {
+		r.memo[key] = cloneSet(out)
+	}
 	return out
 }
 
@@ -165,8 +172,10 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		return cached
 	}
 	if seed, ok := r.growing[key]; ok {
+		r.seedReads++
 		return seed // re-entrant: return the current seed
 	}
+	reads := r.seedReads
 
 	keys := make([]string, len(scc))
 	for i, x := range scc {
@@ -194,7 +203,9 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 	// The fixpoint converged. These end-sets are final and independent of any
 	// outer growing seed (the SCC only re-references its own members, held in
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
-	// they can be memoized unconditionally.
+	// they can be memoized unconditionally, and the reads of those seeds are no
+	// longer provisional for whoever called in.
+	r.seedReads = reads
 	var result map[int]bool
 	for i, x := range scc {
 		v := r.growing[keys[i]]
-- 
2.43.0


From 6e735f63c5526dd2ac680f6ea598a8d3311ac9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 03/16] fix: accept repetitions of nullable elements whose
 minimum exceeds the input

The recognizer stopped counting at len(input)+2 occurrences, so IsValid
rejected words that repeat an empty match more often, e.g. a = 5["x"] on
the empty input, unlike the parsers.
---
 recognize.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/recognize.go b/recognize.go
index 488d5e1..7ad4a99 100644
--- a/recognize.go
+++ b/recognize.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"maps"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -89,8 +90,12 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
 	seen := map[int]bool{index: true}
 
-	cap := len(r.input) + 2
-	for c := 1; c <= cap; c++ {
+	// An unsatisfiable bound (min > max) accepts nothing.
+	if rep.Max != inf && rep.Min > rep.Max {
+		return ends
+	}
+
+	for c := 1; ; c++ {
 		if rep.Max != inf && c > rep.Max {
 			break
 		}
@@ -103,7 +108,12 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
-		if c >= rep.Min {
+		// A nullable element keeps every position it already reached, so once a
+		// step changes nothing every later count reaches the same positions: the
+		// minimum is met whatever it is. A non-nullable element moves forward
+		// instead, hence next becomes empty after at most len(input)+1 steps.
+		stable := maps.Equal(next, level)
+		if c >= rep.Min || stable {
 			for e := range next {
 				ends[e] = true
 			}
@@ -117,7 +127,7 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		}
 		level = next
 		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
+		if stable || (!grew && c >= rep.Min) {
 			break
 		}
 	}
-- 
2.43.0


From 6b59b990e1d434984076d2ceda225d895f149f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:55 +0000
Subject: [PATCH 04/16] fix: reject a second definition of a redefined core
 rule

With WithRedefineCoreRules, defining the same core rule twice was accepted,
and names differing only in case left two definitions of one rule, picked
at random by GetRule.
---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..441aa5b 100644
--- a/grammar.go
+++ b/grammar.go
@@ -169,11 +169,10 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 		switch definedAs {
 		case "=":
 			isCoreRule := GetRule(rl.Name, nil) != nil
-			if isCoreRule {
-				if !e.o.redefineCore {
-					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
-				}
-			} else if GetRule(rl.Name, mp) != nil {
+			if isCoreRule && !e.o.redefineCore {
+				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From f6e6f9e3616012467159ae0cef6e745f1ced5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:06 +0000
Subject: [PATCH 05/16] fix: extend a copy of a core rule with incremental
 alternatives

ALPHA =/ "!" under WithRedefineCoreRules appended to the package-wide core
rule, changing ALPHA for every grammar of the process.
---
 grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 441aa5b..08a924c 100644
--- a/grammar.go
+++ b/grammar.go
@@ -185,8 +185,13 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
-			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
-			mp[rule.Name] = rule
+			// Extend a copy: rule may be the shared, package-wide core rule.
+			mp[rule.Name] = &Rule{
+				Name: rule.Name,
+				Alternation: Alternation{
+					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
+				},
+			}
 		}
 	}
 	return &Grammar{Rulemap: mp}, nil
-- 
2.43.0


From f2ea87e446adf3fcd6bd9e424ff7b4838430ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:35 +0000
Subject: [PATCH 06/16] fix: honour a repetition minimum above the generation
 cap

Generate divided by zero (or drew from a negative span) when an unbounded
repetition requires more occurrences than WithRepMax, e.g. a = 17*"a".
---
 generate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate.go b/generate.go
index 179db93..7da1bf6 100644
--- a/generate.go
+++ b/generate.go
@@ -52,6 +52,9 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 		if repmax == inf {
 			repmax = options.repMax
 		}
+		if repmax < rep.Min { // the minimum is mandatory whatever the cap
+			repmax = rep.Min
+		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
 			switch elem := rep.Element.(type) {
-- 
2.43.0


From e6727cdfaa48a2d8a25ef10617e26ac16cdef3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:45 +0000
Subject: [PATCH 07/16] fix: report an undefined rule when generating instead
 of panicking

Generate dereferenced a nil rule when a grammar parsed without validation
references a rule it does not define.
---
 generate.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/generate.go b/generate.go
index 7da1bf6..a93d006 100644
--- a/generate.go
+++ b/generate.go
@@ -169,6 +169,9 @@ func checkCanGenerateSafely(g *Grammar, rulename string) error {
 			Rulename: rulename,
 		}
 	}
+	if err := checkRulesDefined(g, rule.Alternation, map[string]bool{}); err != nil {
+		return err
+	}
 	knownRules := map[string]struct{}{
 		rulename: {},
 	}
@@ -183,6 +186,25 @@ func checkCanGenerateSafely(g *Grammar, rulename string) error {
 	return nil
 }
 
+// checkRulesDefined returns an error if a rule reachable from the alternation
+// is not defined, as nothing can be generated from it.
+func checkRulesDefined(g *Grammar, alt Alternation, visited map[string]bool) error {
+	for _, dep := range getDependencies(alt) {
+		if visited[dep] {
+			continue
+		}
+		visited[dep] = true
+		rule := GetRule(dep, g.Rulemap)
+		if rule == nil {
+			return &ErrRuleNotFound{Rulename: dep}
+		}
+		if err := checkRulesDefined(g, rule.Alternation, visited); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
 	errs := make([]error, len(alt.Concatenations))
 	for alti, concat := range alt.Concatenations {
-- 
2.43.0


From 541e945b689847c54796ba34d1dd7ada482d9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:55 +0000
Subject: [PATCH 08/16] fix: IsDAG reports a rule that depends on itself

A self-referencing rule (a = "x" a) is a cycle, as RuleContainsCycle says,
but IsDAG only looked at components of several rules.
---
 dag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dag.go b/dag.go
index 4d004e4..143ba22 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,12 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A size-1 SCC is still a cycle when the rule depends on itself.
+		for _, nd := range sccs {
+			if slices.Contains(nd.Dependencies, strings.ToLower(nd.Rulename)) {
+				return false
+			}
+		}
 	}
 	return true
 }
-- 
2.43.0


From 6720f91a28acf1c04e1ca21dc98eb8859470ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:38 +0000
Subject: [PATCH 09/16] fix: generate compilable parsers for terminals and
 rules that never match

A prose-val, a num-val series outside Unicode, an undefined rule or an
unsatisfiable repetition made GenerateGoParser emit code that uses an
undeclared variable or leaves one unused.
---
 codegen.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/codegen.go b/codegen.go
index 39129e9..a4703f4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -169,8 +169,13 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 }
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
-	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	ci := c.sg.nts[callee]
+	if len(ci.alts) == 0 {
+		// derives nothing (undefined rule, unsatisfiable bound): a dead end.
+		b.WriteString("\t\t\treturn\n")
+		return
+	}
+	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	if ci.isRep {
 		if callee == s.nt {
 			// self-recursion inside the rep's own loop: continue the chain.
@@ -208,14 +213,17 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		return // never matches: nothing can follow the emitted return
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It reports whether the terminal can match at all: when it can't, the
+// emitted code only returns and never sets j.
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
@@ -230,13 +238,16 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
 		case StatSeries:
-			c.emitSeries(b, v)
+			return c.emitSeries(b, v)
 		default:
 			b.WriteString("\t\t\treturn\n")
+			return false
 		}
 	default: // prose-val: never matches
 		b.WriteString("\t\t\treturn\n")
+		return false
 	}
+	return true
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +287,20 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
 			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From c3026b59d20a6cee9af54ff9fd01bdb499e96d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:48 +0000
Subject: [PATCH 10/16] fix: generated parsers report ErrTooLarge when the last
 step hits the bound

Parse only looked at the abort flag before taking the next descriptor, so
hitting MaxElements on the last one returned a truncated Result without an
error, e.g. a = "x" "y" "z" with MaxElements = 1.
---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index a4703f4..13ee30e 100644
--- a/codegen.go
+++ b/codegen.go
@@ -897,6 +897,9 @@ func Parse(input []byte) (*Result, error) {
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted { // the last descriptor may be the one that hit the bound
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From f1e097b8d53a32030ddba439910ead109984e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:24 +0000
Subject: [PATCH 11/16] fix: keep control characters out of generated slot
 comments

Only single terminals were sanitized: a repetition, group or option over a
char-val holding a newline ended the line comment and broke the generated
source.
---
 codegen.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 13ee30e..2a2cf32 100644
--- a/codegen.go
+++ b/codegen.go
@@ -410,8 +410,8 @@ func (c *codegen) slotComment(s sInfo) string {
 	if s.dot == len(prod) {
 		parts = append(parts, ".")
 	}
-	return strings.TrimSpace(name+" ::= "+strings.Join(parts, " ")) +
-		fmt.Sprintf("  (%d,%d,%d)", s.nt, s.alt, s.dot)
+	return sanitizeComment(strings.TrimSpace(name+" ::= "+strings.Join(parts, " ")) +
+		fmt.Sprintf("  (%d,%d,%d)", s.nt, s.alt, s.dot))
 }
 
 func symStr(sg *slotGrammar, s ssym) string {
@@ -429,7 +429,7 @@ func symStr(sg *slotGrammar, s ssym) string {
 		return "eps"
 	default:
 		if s.term != nil {
-			return sanitizeComment(s.term.String())
+			return s.term.String()
 		}
 		return "?"
 	}
@@ -437,9 +437,14 @@ func symStr(sg *slotGrammar, s ssym) string {
 
 func sanitizeComment(s string) string {
 	s = strings.ReplaceAll(s, "*/", "* /")
-	s = strings.ReplaceAll(s, "\r", " ")
-	s = strings.ReplaceAll(s, "\n", " ")
-	return s
+	// A control character could end the line comment, or is not allowed in Go
+	// source at all (NUL, byte order mark).
+	return strings.Map(func(r rune) rune {
+		if r < 0x20 || r == 0x7f || r == utf8.RuneError || r == 0xfeff {
+			return ' '
+		}
+		return r
+	}, s)
 }
 
 func foldByte(b byte) byte {
-- 
2.43.0


From f0b1d5ac40a0b133df7d0cc2182fdc9f00eafa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:37 +0000
Subject: [PATCH 12/16] fix: regexes match nothing where the recognizer matches
 nothing

---
 regex.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/regex.go b/regex.go
index b3d49b2..3fe32c0 100644
--- a/regex.go
+++ b/regex.go
@@ -134,7 +134,7 @@ func (b *reBuilder) rule(name string) reNode {
 	}
 	r := GetRule(name, b.g.Rulemap)
 	if r == nil {
-		return reEmptyV
+		return reNeverV // an undefined rule matches nothing, as in the recognizer
 	}
 	n := b.alt(r.Alternation)
 	b.memo[key] = n
@@ -308,6 +308,8 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 	case *reRepeat:
 		sub := simplify(v.sub, memo)
 		switch {
+		case v.max != inf && v.min > v.max:
+			res = reNeverV // unsatisfiable bound
 		case isNever(sub):
 			// Zero occurrences are allowed iff min == 0 (then it matches empty);
 			// otherwise the repetition is itself un-matchable.
@@ -455,7 +457,12 @@ func quantifier(min, max int) string {
 }
 
 // regescape quotes a single rune for use outside a character class.
-func regescape(r rune) string { return regexp.QuoteMeta(string(r)) }
+func regescape(r rune) string {
+	if !utf8.ValidRune(r) { // a surrogate: no string form, and matches nothing
+		return fmt.Sprintf("\\x{%x}", r)
+	}
+	return regexp.QuoteMeta(string(r))
+}
 
 // classEscape renders a rune as a character-class member. Alphanumerics are
 // never class metacharacters; everything else is emitted as \x{...} to avoid
-- 
2.43.0


From a184b6ca27fd119d09161fb6352f3d8a45ca8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:13 +0000
Subject: [PATCH 13/16] fix: expand a numeric series into a sequence of nodes,
 not alternatives

---
 transition_graph.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..3a044a8 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1382,14 +1382,23 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
+			// The values of a series follow each other.
+			var prev *Node
 			for _, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if prev == nil {
+					entrypoints = append(entrypoints, n)
+				} else {
+					prev.Nexts = append(prev.Nexts, n)
+				}
+				prev = n
+			}
+			if prev != nil {
+				endpoints = append(endpoints, prev)
 			}
 		}
 		return
-- 
2.43.0


From 6afdf5d1eb8974c178a26ef5622461c219af58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:56 +0000
Subject: [PATCH 14/16] fix: count only new binary-subtree elements against the
 budget

An element already in the set was still checked against the bound, so an
input whose set exactly fits WithMaxForestNodes (or MaxElements in a
generated parser) failed as too large.
---
 bsr.go     | 6 +++++-
 codegen.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..183e38c 100644
--- a/bsr.go
+++ b/bsr.go
@@ -92,11 +92,15 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 func (p *bsrParser) record(L slot, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
+		e := bsrElem{L, l, k, r}
+		if p.set[e] {
+			return // already recorded: the budget counts distinct elements
+		}
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[e] = true
 	}
 }
 
diff --git a/codegen.go b/codegen.go
index 2a2cf32..e85f7ab 100644
--- a/codegen.go
+++ b/codegen.go
@@ -579,11 +579,15 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 func (p *parser) record(L, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
+		e := bsrElem{L, l, k, r}
+		if p.set[e] {
+			return // already recorded: the bound counts distinct elements
+		}
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[e] = true
 	}
 }
 
-- 
2.43.0


From 92bfc15aa91450dae82090dd27e33c7e40141c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:46 +0000
Subject: [PATCH 15/16] fix: number the nodes of Tarjan's algorithm from 1, as
 0 stands for not visited

The node visited first had index 0 and was visited again by every edge back
to it, so it could end up in two components. A rule that is left-recursive
both by itself and through another rule was then grown without the other one,
and IsValid could panic with an assignment to an entry of a nil map, depending
on the map iteration order.
---
 dag.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 143ba22..bc6fa61 100644
--- a/dag.go
+++ b/dag.go
@@ -200,10 +200,11 @@ func (c *cycle) find() {
 }
 
 func (c *cycle) strongconnect(v *node) {
-	// Set the depth index for v to the smallest unused index
+	// Set the depth index for v to the smallest unused index, counting from 1
+	// as 0 stands for not visited yet
+	c.index++
 	v.index = c.index
 	v.lowlink = c.index
-	c.index++
 	c.stack = append(c.stack, v)
 	v.onStack = true
 
-- 
2.43.0


From 07b7481cc866172a9bbcee5ed9c7b974c084d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:34 +0000
Subject: [PATCH 16/16] fix: ExpectedNext accepted runes outside multi-byte
 num-val ranges

The octets of all the runes of a range with the same UTF-8 length were
merged position by position, so that any combination of them was accepted:
with a = %xBF-C1 the word U+0080 was reported as complete, and ranges
containing surrogates accepted U+FFFD. Keep one emission per leading octets
and skip the values that have no encoding.
---
 fuzz.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index e8d79ff..3a12c1b 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -557,7 +557,7 @@ func (s octetSet) bytes() []byte {
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
 // of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// emission; a multi-byte num-val range has one per distinct leading octets.
 type emission struct {
 	pos []octetSet
 }
@@ -648,23 +648,29 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			if max-min+1 > expectedNextRangeCap {
 				return nil, false
 			}
-			byLen := map[int]*emission{}
+			// One emission per leading octets: merging runes that differ there
+			// would admit runes outside of the range.
+			byLead := map[string]*emission{}
 			for r := min; r <= max; r++ {
+				if !utf8.ValidRune(r) { // surrogates have no UTF-8 encoding
+					continue
+				}
 				bs := []byte(string(rune(r)))
-				e := byLen[len(bs)]
+				lead := string(bs[:len(bs)-1])
+				e := byLead[lead]
 				if e == nil {
 					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
+					byLead[lead] = e
 				}
 				for j, b := range bs {
 					e.pos[j].add(b)
 				}
 			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
+			out := make([]emission, 0, len(byLead))
+			for _, e := range byLead {
 				out = append(out, *e)
 			}
-			return out, true
+			return out, len(out) > 0
 		}
 	}
 	return nil, false
-- 
2.43.0

