From e5df63a06232add8b65148999b69a2a43fb0b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 01/71] fix: right superposition on t must keep the untouched
 side of the goal

When the rewritten side of an equation (or of the goal) was the second one,
the rule replaced the other side by the term before rewriting, so the goal
s = t became t = t[l->r], which the equation itself closes: (a = c) => (b = c)
was reported as a theorem.
---
 src/Mods/equality/bse/equality_rules_apply.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index 40d6e8a..d69088b 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -80,7 +80,7 @@ func applyLeftRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP,
 		if rs.getIsSModified() {
 			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(new_term.Copy(), rs.getT())
 		} else {
-			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getS(), new_term.Copy())
+			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getT(), new_term.Copy())
 		}
 		debug(
 			Lib.MkLazy(func() string { return fmt.Sprintf("New EQ list : %v", new_eq_list.ToString()) }),
@@ -110,7 +110,7 @@ func applyRightRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP
 		if rs.getIsSModified() {
 			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), new_term.Copy(), rs.getT(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		} else {
-			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getS(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
+			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getT(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		}
 	} else {
 		debug(
-- 
2.43.0


From 349d308ab0b97f5db792a619ef9c2b2a5a60ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 02/71] fix: TermForm.ToString recursed into itself without end

Any run with equality debugging enabled died of a stack overflow.
---
 src/Unif/parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index c8a80fc..52e6d8e 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -42,7 +42,7 @@ type TermForm struct {
 	t     AST.Term
 }
 
-func (t TermForm) ToString() string          { return t.ToString() }
+func (t TermForm) ToString() string          { return t.t.ToString() }
 func (t TermForm) GetTerm() AST.Term         { return t.t.Copy() }
 func (t TermForm) Copy() AST.Form            { return makeTermForm(t.GetIndex(), t.GetTerm()) }
 func (t TermForm) RenameVariables() AST.Form { return t }
-- 
2.43.0


From 1e7301743176d07fcf903310923d6717cf003c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 03/71] fix: look up the counterpart of an equation by term,
 not by printed form

Metavariables print without their index, so the map keyed on ToString mixed up
distinct instances of the same variable and rewrote with equations that were
not among the assumptions: (! [Y] : Y = f(Y)) & c != b was refuted.
---
 src/Mods/equality/bse/equality_problem.go     | 48 ++++++-------------
 .../equality/bse/equality_rules_try_apply.go  |  2 +-
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/Mods/equality/bse/equality_problem.go b/src/Mods/equality/bse/equality_problem.go
index 803d84e..905c85b 100644
--- a/src/Mods/equality/bse/equality_problem.go
+++ b/src/Mods/equality/bse/equality_problem.go
@@ -49,7 +49,6 @@ import (
 
 type EqualityProblem struct {
 	E_tree Unif.DataStructure
-	E_map  map[string]Lib.List[AST.Term]
 	E      Equalities
 	s, t   AST.Term
 	c      ConstraintStruct
@@ -58,9 +57,21 @@ type EqualityProblem struct {
 func (ep EqualityProblem) getETree() Unif.DataStructure {
 	return ep.E_tree.Copy()
 }
-func (ep EqualityProblem) getEMap() map[string]Lib.List[AST.Term] {
-	return ep.E_map
+
+/* Returns the terms that are equated to t in E */
+func (ep EqualityProblem) getCounterparts(t AST.Term) Lib.List[AST.Term] {
+	res := Lib.NewList[AST.Term]()
+	for _, e := range ep.E {
+		if e.GetT1().Equals(t) {
+			res.Append(e.GetT2())
+		}
+		if e.GetT2().Equals(t) {
+			res.Append(e.GetT1())
+		}
+	}
+	return res
 }
+
 func (ep EqualityProblem) GetE() Equalities {
 	return ep.E.copy()
 }
@@ -131,7 +142,7 @@ func makeEqualityProblemList(E Equalities, goal []eqStruct.TermPair) EqualityPro
 }
 
 func makeEqualityProblem(E Equalities, s AST.Term, t AST.Term, c ConstraintStruct) EqualityProblem {
-	return EqualityProblem{makeDataStructFromEqualities(E.copy()), makeEQMapFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
+	return EqualityProblem{makeDataStructFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
 }
 
 /* Take a list of equalities and build the corresponding code tree */
@@ -142,32 +153,3 @@ func makeDataStructFromEqualities(eq Equalities) Unif.DataStructure {
 	}
 	return Unif.NewNode().MakeDataStruct(Lib.ListCpy(formList), true)
 }
-
-/* Take a list of equalities and build the corresponding assocative map */
-func makeEQMapFromEqualities(eq Equalities) map[string]Lib.List[AST.Term] {
-	map_res := make(map[string]Lib.List[AST.Term])
-
-	for _, e := range eq {
-		key1 := e.GetT1().ToString()
-		key2 := e.GetT2().ToString()
-
-		if _, found := map_res[key1]; !found {
-			map_res[key1] = Lib.NewList[AST.Term]()
-		}
-
-		if _, found := map_res[key2]; !found {
-			map_res[key2] = Lib.NewList[AST.Term]()
-		}
-
-		upd1 := map_res[key1]
-		upd2 := map_res[key2]
-
-		upd1.Append(e.GetT2())
-		upd2.Append(e.GetT1())
-
-		map_res[key1] = upd1
-		map_res[key2] = upd2
-	}
-
-	return map_res
-}
diff --git a/src/Mods/equality/bse/equality_rules_try_apply.go b/src/Mods/equality/bse/equality_rules_try_apply.go
index cfc5a35..e78e9b9 100644
--- a/src/Mods/equality/bse/equality_rules_try_apply.go
+++ b/src/Mods/equality/bse/equality_rules_try_apply.go
@@ -141,7 +141,7 @@ func connectLAndR(list_l_prime_l []eqStruct.TermPair, ep EqualityProblem, s AST.
 			}),
 		)
 
-		for _, r := range ep.getEMap()[l_prime_l_pair.GetT2().ToString()].GetSlice() {
+		for _, r := range ep.getCounterparts(l_prime_l_pair.GetT2()).GetSlice() {
 			debug(
 				Lib.MkLazy(func() string {
 					return fmt.Sprintf(
-- 
2.43.0


From e2a5599ba852f8d57761d64b2350908529636ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 04/71] fix: number type metavariables from the same counter as
 term metavariables

Both kinds meet in one substitution, where metavariables are compared by index
alone: a type metavariable could be taken for an unrelated term metavariable,
and equality reasoning then stopped with the anomaly 'Meta EQ/NEQ not found'
(! [X] : (X = X & X = X), negated, among others).
---
 src/AST/maker.go             |  9 +++++++++
 src/AST/tptp-native-types.go |  2 --
 src/AST/ty-syntax.go         | 10 +---------
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 427701e..9643f09 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -128,6 +128,15 @@ func MakerNewVar(s string) Var {
 	return vr
 }
 
+/* A fresh index, shared by the term metavariables and the type metavariables: both are compared in the same substitutions */
+func makerMetaIndex() int {
+	lock_term.Lock()
+	defer lock_term.Unlock()
+	index := cpt_term
+	cpt_term += 1
+	return index
+}
+
 /* Meta maker */
 func MakerMeta(s string, formula int, ty Ty) Meta {
 	lock_term.Lock()
diff --git a/src/AST/tptp-native-types.go b/src/AST/tptp-native-types.go
index 320cf3b..3b4b821 100644
--- a/src/AST/tptp-native-types.go
+++ b/src/AST/tptp-native-types.go
@@ -60,8 +60,6 @@ func initTPTPNativeTypes() {
 
 	tIndividual = MkTyConst("$i")
 	tProp = MkTyConst("$o")
-
-	count_meta = 0
 }
 
 func TType() Ty {
diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index 5ea889c..c541f2c 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -39,15 +39,11 @@ package AST
 
 import (
 	"fmt"
-	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
-var meta_mut sync.Mutex
-var count_meta int
-
 type TyGenVar interface {
 	isGenVar()
 }
@@ -297,11 +293,7 @@ func MkTyBV(name string, index int) Ty {
 }
 
 func MkTyMeta(name string, formula int) Ty {
-	meta_mut.Lock()
-	meta := TyMeta{name, count_meta, formula}
-	count_meta += 1
-	meta_mut.Unlock()
-	return meta
+	return TyMeta{name, makerMetaIndex(), formula}
 }
 
 func MkTyConstr(symbol string, args Lib.List[Ty]) Ty {
-- 
2.43.0


From 27cd8141a4ef220cf7fc47bb8fbc8893c1612584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 05/71] fix: make the look-up and creation of identifiers and
 metavariables atomic

Between the look-up and the insertion another branch could register the same
name, which left one symbol with two different indices.
---
 src/AST/maker.go | 55 +++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 9643f09..f4c7c92 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -83,48 +83,56 @@ func Reset() {
 
 /* Reset the metavariable table (useful when the IDDFS stop and restart) */
 func ResetMeta() {
+	lock_term.Lock()
+	defer lock_term.Unlock()
 	occurenceMeta = map[string]int{}
 }
 
 /* ID maker */
 func MakerId(s string) Id {
 	lock_term.Lock()
-	i, ok := idTable[s]
-	lock_term.Unlock()
-	if ok {
+	defer lock_term.Unlock()
+	if i, ok := idTable[s]; ok {
 		return MakeId(i, s)
-	} else {
-		return MakerNewId(s)
 	}
+	return newId(s)
 }
 
 func MakerNewId(s string) Id {
 	lock_term.Lock()
+	defer lock_term.Unlock()
+	return newId(s)
+}
+
+/* lock_term must be held */
+func newId(s string) Id {
 	idTable[s] = cpt_term
 	id := MakeId(cpt_term, s)
 	cpt_term += 1
-	lock_term.Unlock()
 	return id
 }
 
 /* Var maker */
 func MakerVar(s string) Var {
 	lock_term.Lock()
-	i, ok := idVar[s]
-	lock_term.Unlock()
-	if ok {
+	defer lock_term.Unlock()
+	if i, ok := idVar[s]; ok {
 		return MakeVar(i, s)
-	} else {
-		return MakerNewVar(s)
 	}
+	return newVar(s)
 }
 
 func MakerNewVar(s string) Var {
 	lock_term.Lock()
+	defer lock_term.Unlock()
+	return newVar(s)
+}
+
+/* lock_term must be held */
+func newVar(s string) Var {
 	idVar[s] = cpt_term
 	vr := MakeVar(cpt_term, s)
 	cpt_term += 1
-	lock_term.Unlock()
 	return vr
 }
 
@@ -140,23 +148,12 @@ func makerMetaIndex() int {
 /* Meta maker */
 func MakerMeta(s string, formula int, ty Ty) Meta {
 	lock_term.Lock()
-	i, ok := occurenceMeta[s]
-	lock_term.Unlock()
-	if ok {
-		lock_term.Lock()
-		occurenceMeta[s] = i + 1
-		new_index := cpt_term
-		cpt_term += 1
-		lock_term.Unlock()
-		return MakeMeta(new_index, i, s, formula, ty)
-	} else {
-		lock_term.Lock()
-		occurenceMeta[s] = 1
-		new_index := cpt_term
-		cpt_term += 1
-		lock_term.Unlock()
-		return MakeMeta(new_index, 0, s, formula, ty)
-	}
+	defer lock_term.Unlock()
+	occurence := occurenceMeta[s]
+	occurenceMeta[s] = occurence + 1
+	index := cpt_term
+	cpt_term += 1
+	return MakeMeta(index, occurence, s, formula, ty)
 }
 
 /* Const maker (given a id, create a fun without args) */
-- 
2.43.0


From 83ca71b1ea0a67b8876a565b797fd0e3cdbc54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 06/71] fix: return the node id that was allocated, under its
 lock

Another branch could allocate between the increment and the read, which gave
two nodes of the proof the same id.
---
 src/Glob/helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Glob/helper.go b/src/Glob/helper.go
index fcf7d91..533381a 100644
--- a/src/Glob/helper.go
+++ b/src/Glob/helper.go
@@ -189,14 +189,16 @@ func IsLoaded(s string) bool {
 }
 
 func GetCptNode() int {
+	lock_cpt_node.Lock()
+	defer lock_cpt_node.Unlock()
 	return cpt_node
 }
 
 func IncrCptNode() int {
 	lock_cpt_node.Lock()
+	defer lock_cpt_node.Unlock()
 	cpt_node++
-	lock_cpt_node.Unlock()
-	return GetCptNode()
+	return cpt_node
 }
 
 func GetDMTBeforeEq() bool {
-- 
2.43.0


From 8d57589e86ee0b86bc433177331a6c0884bb7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 07/71] fix: read the goroutine counter under its lock

---
 src/Glob/helper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Glob/helper.go b/src/Glob/helper.go
index 533381a..d20cd2e 100644
--- a/src/Glob/helper.go
+++ b/src/Glob/helper.go
@@ -152,6 +152,8 @@ func GetStart() time.Time {
 }
 
 func GetNbGoroutines() int {
+	mutex.Lock()
+	defer mutex.Unlock()
 	return nb_gor
 }
 
-- 
2.43.0


From eeb10c0c3ff7d01d5659d444f8cceb4a2a783c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 08/71] fix: skolemize one formula at a time

Each call replaces the global strategy by the updated copy it returns; two
branches that did so concurrently lost one update (a symbol name could be
generated twice) and raced on the interface value.
---
 src/Core/skolemisation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index e894780..0a90c8f 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -33,6 +33,7 @@ package Core
 
 import (
 	"fmt"
+	"sync"
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core/Sko"
 	"github.com/GoelandProver/Goeland/Glob"
@@ -72,6 +73,7 @@ import (
  **/
 
 var selectedSkolemization Sko.Skolemization = Sko.MkOuterSkolemization()
+var selectedSkolemizationMu sync.Mutex // branches skolemize concurrently
 
 const (
 	isNegAll = iota
@@ -132,12 +134,14 @@ func realSkolemize(
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
+		selectedSkolemizationMu.Lock()
 		selectedSkolemization, res = selectedSkolemization.Skolemize(
 			initialForm,
 			deltaForm,
 			x,
 			metas,
 		)
+		selectedSkolemizationMu.Unlock()
 	}
 
 	switch typ {
-- 
2.43.0


From d6223cf987c1cd6ac438b2f09ddcfa69fa97254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 09/71] fix: do not write to the shared printer while printing
 a connective

---
 src/AST/modular-printing.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index edef719..5968278 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -142,7 +142,6 @@ func (p *PrinterConnective) StrConn(conn Connective) string {
 	switch connective := p.inherit.(type) {
 	case Lib.None[PrinterConnective]:
 		default_connective = DefaultPrinterConnectives()
-		p.inherit = Lib.MkSome(default_connective)
 	case Lib.Some[PrinterConnective]:
 		default_connective = connective.Val
 	}
-- 
2.43.0


From 1cba84757d2ab5ecb12a03d05ef1ef0f22b5dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 10/71] fix: draw the ids of equality classes atomically

---
 src/Mods/equality/sateq/termrep.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Mods/equality/sateq/termrep.go b/src/Mods/equality/sateq/termrep.go
index 244a577..b3d2abb 100644
--- a/src/Mods/equality/sateq/termrep.go
+++ b/src/Mods/equality/sateq/termrep.go
@@ -34,6 +34,7 @@ package sateq
 import (
 	"cmp"
 	"fmt"
+	"sync/atomic"
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
@@ -57,7 +58,7 @@ func makeUnorderedPair[T Ordered[T]](x, y T) unorderedPair[T] {
 	return unorderedPair[T]{y, x}
 }
 
-var eqClassCounter = 0
+var eqClassCounter atomic.Int64 // branches build their problems concurrently
 
 type eqClass struct {
 	id     int
@@ -109,9 +110,8 @@ func (e *eqClass) congruent(e2 *eqClass) bool {
 }
 
 func makeEqClass() *eqClass {
-	r := eqClass{id: eqClassCounter, parent: nil, size: 1}
+	r := eqClass{id: int(eqClassCounter.Add(1)), parent: nil, size: 1}
 	r.parent = &r
-	eqClassCounter++
 
 	return &r
 }
-- 
2.43.0


From 84264826fa0d58f0ef48af3643a369581ca56e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 11/71] fix: dmt must not take $true and $false for literals

---
 src/Mods/dmt/axiom_registration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 9bcbc09..14756ab 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -175,8 +175,12 @@ func makeRewriteRuleFromEquivalence(equForm AST.Equ) bool {
 	return addEquRewriteRuleIfNotEquality(f1, f2)
 }
 
+// $true and $false are atomic for the search, but no rewrite rule can be made from them.
 func isAtomic(f AST.Form) bool {
-	return Core.ShowKindOfRule(f) == Core.Atomic
+	if not, ok := f.(AST.Not); ok {
+		f = not.GetForm()
+	}
+	return Glob.Is[AST.Pred](f)
 }
 
 func areBothAtomics(f1, f2 AST.Form) bool {
-- 
2.43.0


From 4a100b17eda42a52de6a2ef80ab3a44b797907de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 12/71] fix: a line comment ends with the line, whatever it
 contains

---
 src/Parser/tptp_lex.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..6004993 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -100,7 +100,7 @@ func (lexer TPTPLex) checkNext(c rune) bool {
 func (lexer *TPTPLex) filterComments() bool {
 	if lexer.c == '%' { // Comment line
 		lexer.advance()
-		for lexer.pos < len(lexer.s) && lexer.isPrintableChar() {
+		for lexer.pos < len(lexer.s) && lexer.c != '\n' {
 			lexer.advance()
 		}
 		return lexer.pos < len(lexer.s)
@@ -140,14 +140,6 @@ func (lexer *TPTPLex) filterSpaces() bool {
 	return lexer.pos < len(lexer.s)
 }
 
-// <printable_char>       ::: .
-// %----<printable_char> is any printable ASCII character, codes 32 (space) to 126
-// %----(tilde). <printable_char> does not include tabs, newlines, bells, etc. The
-// %----use of . does not not exclude tab, so this is a bit loose.
-func (lexer *TPTPLex) isPrintableChar() bool {
-	return int(lexer.c) >= 32 && int(lexer.c) <= 126
-}
-
 // <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
 func (lexer *TPTPLex) notStarSlash() bool {
 	return lexer.c != '*' || !lexer.checkAdvance('/')
-- 
2.43.0


From ec55a04ece54febddff9cd563a89e2a94304d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 13/71] fix: a quantifier need not be followed by a space

---
 src/Parser/tptp_lex.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 6004993..c4dae61 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -227,18 +227,13 @@ func (lexer *TPTPLex) isOperator() (int, bool) {
 			word += ">"
 			quantifiersCounter += 1
 		} else {
-			if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
-				quantifiersCounter += 1
-			} else {
+			if lexer.pos < len(lexer.s) && lexer.checkNext('=') { // !=
 				return FAILURE_TOKEN, false
 			}
-		}
-	case '?':
-		if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
 			quantifiersCounter += 1
-		} else {
-			return FAILURE_TOKEN, false
 		}
+	case '?':
+		quantifiersCounter += 1
 	case '<':
 		if lexer.checkAdvance('=') { // <=> or <=
 			word += "="
-- 
2.43.0


From dd5630ca7cb0eec3685d243316d4a042dc4870ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 14/71] fix: read escapes in quoted names, and reject quoted
 names that do not end

---
 src/Parser/tptp_lex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index c4dae61..3fb7160 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -354,14 +354,18 @@ func (lexer *TPTPLex) singleQuoted(yylval *TPTPSymType) {
 	for lexer.isSqChar() || lexer.c == '\\' {
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '\'' {
-				word += string('\\' + lexer.c)
+			if lexer.c != '\\' && lexer.c != '\'' {
+				lexer.Error("Illegal escape in a quoted name.")
 			}
+			word += string(lexer.c)
 		} else {
 			word += string(lexer.c)
 		}
 		lexer.advance()
 	}
+	if lexer.c != '\'' {
+		lexer.Error("Quoted name started but never ended.")
+	}
 	yylval.str = word
 }
 
@@ -370,14 +374,18 @@ func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
 	for lexer.isDoChar() || lexer.c == '\\' {
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '"' {
-				word += string('\\' + lexer.c)
+			if lexer.c != '\\' && lexer.c != '"' {
+				lexer.Error("Illegal escape in a distinct object.")
 			}
+			word += string(lexer.c)
 		} else {
 			word += string(lexer.c)
 		}
 		lexer.advance()
 	}
+	if lexer.c != '"' {
+		lexer.Error("Distinct object started but never ended.")
+	}
 	yylval.str = word
 }
 
-- 
2.43.0


From 316d9ee362d2f8d152f636bdb7c3d51cb78e5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 15/71] fix: a character that starts no token is a syntax
 error, not the end of the file

---
 src/Parser/tptp_lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 3fb7160..9654449 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -820,6 +820,8 @@ func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
 		return token
 	}
 
+	// FAILURE_TOKEN would be taken for the end of the file
+	lexer.Error(fmt.Sprintf("unexpected character %q", lexer.c))
 	return FAILURE_TOKEN
 }
 
-- 
2.43.0


From b3001e23bf77bca87da09e13fd45efc23fbabbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 16/71] fix: read problem files that do not end with a newline

---
 src/Parser/tptp_lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 9654449..957fce9 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -842,7 +842,8 @@ func ParseTPTPFile(filename string) ([]PStatement, int, bool) {
 		Glob.Fatal(parse_label, err.Error())
 	}
 
-	TPTPParse(&TPTPLex{s: string(data)})
+	// The lexer needs something after the last token
+	TPTPParse(&TPTPLex{s: string(data) + "\n"})
 
 	return statement, quantifiersCounter, containsEquality
 }
-- 
2.43.0


From a46d3bd5c25663f7d033a47c97ca4f988d29e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 17/71] fix: dmt must not rewrite with variables that the
 rewritten atom does not bind

---
 src/Mods/dmt/axiom_registration.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 14756ab..3ad0490 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -172,6 +172,10 @@ func makeRewriteRuleFromEquivalence(equForm AST.Equ) bool {
 		f1, f2 = phi2, phi1
 	}
 
+	if !hasOnlyMetasOf(f2, f1) {
+		return false
+	}
+
 	return addEquRewriteRuleIfNotEquality(f1, f2)
 }
 
@@ -183,6 +187,17 @@ func isAtomic(f AST.Form) bool {
 	return Glob.Is[AST.Pred](f)
 }
 
+// A rewrite rule cannot introduce metavariables: they would belong to no branch of the search.
+func hasOnlyMetasOf(form, atom AST.Form) bool {
+	atomMetas := atom.GetMetas()
+	for _, m := range form.GetMetas().Elements().GetSlice() {
+		if !atomMetas.Contains(m) {
+			return false
+		}
+	}
+	return true
+}
+
 func areBothAtomics(f1, f2 AST.Form) bool {
 	return isAtomic(f1) && isAtomic(f2)
 }
@@ -233,6 +248,13 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 		return false
 	}
 
+	if isAtomic(phi1) && !hasOnlyMetasOf(phi2, phi1) {
+		return false
+	}
+	if isAtomic(phi2) && !isEqualityPred(phi2) && !hasOnlyMetasOf(phi1, phi2) {
+		return false
+	}
+
 	if isAtomic(phi1) {
 		if Glob.Is[AST.Pred](phi1) {
 			addPosRewriteRule(phi1, phi2)
-- 
2.43.0


From 0f8b9d168c54cb836f42d410d9cca101c50fcd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 18/71] fix: dmt only records the axioms it consumes

---
 src/Mods/dmt/axiom_registration.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 3ad0490..0352be1 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -55,16 +55,22 @@ func RegisterAxiom(axiom AST.Form) bool {
 	axiomFT := instanciateForalls(axiom)
 
 	if isRegisterableAsEqu(axiomFT) {
-		registeredAxioms.Append(axiom)
-		return makeRewriteRuleFromEquivalence(axiomFT.(AST.Equ))
+		return recordIf(makeRewriteRuleFromEquivalence(axiomFT.(AST.Equ)), axiom)
 	} else if isRegisterableAsImplication(axiomFT) {
-		registeredAxioms.Append(axiom)
-		return makeRewriteRuleFromImplication(axiomFT.(AST.Imp))
+		return recordIf(makeRewriteRuleFromImplication(axiomFT.(AST.Imp)), axiom)
 	}
 
 	return false
 }
 
+// The axioms that are not consumed stay in the problem.
+func recordIf(consumed bool, axiom AST.Form) bool {
+	if consumed {
+		registeredAxioms.Append(axiom)
+	}
+	return consumed
+}
+
 func instanciateForalls(axiom AST.Form) AST.Form {
 	axiomFT := Core.MakeFormAndTerm(axiom.Copy(), Lib.NewList[AST.Term]())
 	for Glob.Is[AST.All](axiomFT.GetForm()) {
-- 
2.43.0


From 7e72f98c70a88c3dd725368009ffbd752f6f2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 19/71] fix: each skolemized type variable gets its own type

---
 src/Core/skolemisation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index 0a90c8f..d361068 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -130,7 +130,7 @@ func realSkolemize(
 	var res AST.Form
 
 	if AST.IsTType(x.GetTy()) {
-		id := AST.MakerId("skoTy")
+		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
-- 
2.43.0


From 7a5fe8ec749e268faf879c15b818548394a9379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 20/71] fix: dmt looks for an equality under any negation

---
 src/Mods/dmt/axiom_registration.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 0352be1..9c19658 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -213,8 +213,10 @@ func neitherAreAtomics(f1, f2 AST.Form) bool {
 }
 
 func isEqualityPred(f AST.Form) bool {
-	return (Glob.Is[AST.Pred](f) && isEquality(f.(AST.Pred))) ||
-		(Glob.Is[AST.Not](f) && isEquality(predFromNegatedAtom(f)))
+	if not, ok := f.(AST.Not); ok {
+		f = not.GetForm()
+	}
+	return Glob.Is[AST.Pred](f) && isEquality(f.(AST.Pred))
 }
 
 func addEquRewriteRuleIfNotEquality(f1, f2 AST.Form) bool {
-- 
2.43.0


From 4183d5e0336e711542242f0e175c1c974f33bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 21/71] fix: a child started by a DMT backtrack answers with
 the id its father waits for

---
 src/Search/child_management.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 90afaee..a71c6a1 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -343,7 +343,7 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
-	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, args.originalNodeId, args.toReintroduce, false)
+	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
 	debug(Lib.MkLazy(func() string { return "GO !" }))
 	Glob.IncrGoRoutine(1)
 
-- 
2.43.0


From ac4d7cd978f1f00fb3923919bb9da32dc84ea92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 22/71] fix: no equality problem is built from a proposition

---
 src/Mods/equality/bse/equality_problem_list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/bse/equality_problem_list.go b/src/Mods/equality/bse/equality_problem_list.go
index fce9874..30afb5b 100644
--- a/src/Mods/equality/bse/equality_problem_list.go
+++ b/src/Mods/equality/bse/equality_problem_list.go
@@ -247,7 +247,8 @@ func buildEqualityProblemMultiListFromFormList(fl Lib.List[AST.Form], tn Unif.Da
 			debug(
 				Lib.MkLazy(func() string { return fmt.Sprintf("Pred found : %v", p.ToString()) }),
 			)
-			if !pt.GetID().Equals(AST.Id_eq) {
+			// Equality has nothing to say about a proposition
+			if !pt.GetID().Equals(AST.Id_eq) && !pt.GetArgs().Empty() {
 				res = append(res, buildEqualityProblemMultiListFromPredList(pt, tn, eq.copy())...)
 			}
 		}
-- 
2.43.0


From 2d8c7c4fb0840d774347440c09dc89284bc7859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 23/71] fix: print the equality symbol alone when it has no
 arguments

---
 src/AST/modular-printing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index 5968278..2ab7dc9 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -190,7 +190,8 @@ func (p Printer) OnFunctionalArgs(i Id, tys, con string, args Lib.List[Term]) st
 	// It'd maybe be useful to have an [Infix] generic action but I don't see how to do
 	// that for now.
 	infix := Lib.MkListV(Id_eq)
-	is_infix := Lib.ListMem(i, infix)
+	// A bare symbol (e.g., [EmptyPredEq]) has nothing to be put between.
+	is_infix := Lib.ListMem(i, infix) && !args.Empty()
 	arguments := Lib.ListToString(args, Lib.WithSep(p.StrConn(SepArgs)), Lib.WithEmpty(""))
 
 	if is_infix {
-- 
2.43.0


From 3e87af2cbef603e58dafbc6c6fc12e3b923c854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 24/71] fix: sateq closes its classes under congruence

---
 src/Mods/equality/sateq/problem.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index 7c409c6..d5da3f1 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -140,6 +140,9 @@ func (problem *Problem) addNewTermRecord(tr *termRecord) *eqClass {
 	problem.partitionIndex[ec] = Glob.NewList[*termRecord]()
 	problem.partitionIndex[ec].Append(tr)
 	problem.supertermIndex[ec] = Glob.NewList[*termRecord]()
+	for _, arg := range tr.args {
+		problem.supertermIndex[arg.representative()].AppendIfNotContains(tr)
+	}
 	if tr.isMeta() {
 		problem.metasIndex[tr.index] = tr
 	} else {
@@ -147,7 +150,6 @@ func (problem *Problem) addNewTermRecord(tr *termRecord) *eqClass {
 			problem.functionsIndex[tr.index] = Glob.NewList[*termRecord]()
 		}
 		problem.functionsIndex[tr.index].Append(tr)
-		problem.supertermIndex[ec].Append(tr)
 	}
 	return ec
 }
@@ -173,9 +175,12 @@ func (problem *Problem) mergeEquivalenceClasses(ec1, ec2 *eqClass) {
 	delete(problem.supertermIndex, ecDeleted)
 
 	// propagate congruence
-	for _, t3 := range problem.supertermIndex[ecMerged].Slice() {
+	// the superterms are read once: a recursive call may merge ecMerged into another class, and then
+	// handles the superterms of that class itself
+	superterms := problem.supertermIndex[ecMerged].Copy().Slice()
+	for _, t3 := range superterms {
 		// !t3.isMeta
-		for _, t4 := range problem.supertermIndex[ecMerged].Slice() {
+		for _, t4 := range superterms {
 			ec3 := t3.eqClass
 			ec4 := t4.eqClass
 			if !ec3.congruent(ec4) && t3.congruent(t4) {
-- 
2.43.0


From 2d36b7281fbbe36d26a8ba7147df75d6faef3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 25/71] fix: sateq equates two classes by congruence only
 through a term of each

---
 src/Mods/equality/sateq/satbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 2a12c85..90c6b4f 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -199,7 +199,7 @@ func (sb *SatBuilder) 𝜓Constraint(index int, ec1, ec2 *eqClass) {
 	for _, tr1 := range sb.problem.TermsInClass(ec1).Slice() {
 		if !tr1.isMeta() && len(tr1.args) != 0 {
 			for _, tr2 := range sb.problem.TermsWithSymbol(tr1.index).Slice() {
-				if !tr1.eqClass.congruent(tr2.eqClass) {
+				if tr2.eqClass.congruent(ec2) {
 					fVar := sb.getVarFromFMapping(index, tr1, tr2)
 					vars2 := []Lit{fVar}
 
-- 
2.43.0


From 2ecb94c9ef511099c7ccaab1aa47cf101f0266f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 26/71] fix: sateq returns substitutions in solved form

---
 src/Mods/equality/sateq/subsgatherer.go | 56 ++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/Mods/equality/sateq/subsgatherer.go b/src/Mods/equality/sateq/subsgatherer.go
index 41b30cf..c84fc9b 100644
--- a/src/Mods/equality/sateq/subsgatherer.go
+++ b/src/Mods/equality/sateq/subsgatherer.go
@@ -32,6 +32,8 @@
 package sateq
 
 import (
+	"slices"
+
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
@@ -74,25 +76,59 @@ func getTranslation(truthValue map[Lit]bool, rMapping map[Glob.Pair[*eqClass, *t
 	return transMap
 }
 
-func translate(toTranslate *eqClass, correspondence map[*eqClass]*termRecord) AST.Term {
-	tr := correspondence[toTranslate.representative()]
+// A substitutionTranslator turns the assignment of the metas to classes into a solved form: no
+// meta that is substituted occurs in the terms that replace the metas.
+type substitutionTranslator struct {
+	sub            map[int]*eqClass // indexed by the identifiers of the metas
+	correspondence map[*eqClass]*termRecord
+	solved         map[int]AST.Term
+	inProgress     map[int]bool
+}
+
+func (st *substitutionTranslator) translate(toTranslate *eqClass) AST.Term {
+	tr := st.correspondence[toTranslate.representative()]
 	if tr.isMeta() {
-		return tr.meta
-	} else {
-		args := Lib.MkList[AST.Term](len(tr.args))
-		for i, s := range tr.args {
-			args.Upd(i, translate(s, correspondence))
-		}
-		return AST.MakerFun(tr.symbolId, tr.tyArgs, args)
+		return st.translateMeta(tr)
+	}
+	args := Lib.MkList[AST.Term](len(tr.args))
+	for i, s := range tr.args {
+		args.Upd(i, st.translate(s))
+	}
+	return AST.MakerFun(tr.symbolId, tr.tyArgs, args)
+}
+
+func (st *substitutionTranslator) translateMeta(tr *termRecord) AST.Term {
+	if term, found := st.solved[tr.index]; found {
+		return term
+	}
+	ec, found := st.sub[tr.index]
+	if !found || st.inProgress[tr.index] {
+		// the metas of a cycle of metas are all replaced by one of them
+		return *tr.meta
 	}
+	st.inProgress[tr.index] = true
+	term := st.translate(ec)
+	delete(st.inProgress, tr.index)
+	st.solved[tr.index] = term
+	return term
 }
 
 func translateSub(sub map[*termRecord]*eqClass, correspondence map[*eqClass]*termRecord) []Unif.Substitutions {
 	result := Unif.MakeEmptySubstitutionList()
 	subs := Unif.MakeEmptySubstitution()
 
+	metas := make([]*termRecord, 0, len(sub))
+	st := substitutionTranslator{make(map[int]*eqClass), correspondence, make(map[int]AST.Term), make(map[int]bool)}
 	for x, r := range sub {
-		subs.Set(*x.meta, translate(r, correspondence))
+		metas = append(metas, x)
+		st.sub[x.index] = r
+	}
+	slices.SortFunc(metas, func(x, y *termRecord) int { return x.CompareTo(y) })
+
+	for _, x := range metas {
+		if term := st.translateMeta(x); !term.Equals(*x.meta) {
+			subs.Set(*x.meta, term)
+		}
 	}
 
 	result = append(result, subs)
-- 
2.43.0


From e8345b6b7e0031cc28d29653fe078a803e02f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 27/71] fix: sateq does not instantiate metas that its solution
 does not need

---
 src/Mods/equality/sateq/problem.go | 48 +++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index d5da3f1..f28fba4 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -49,6 +49,9 @@ type Problem struct {
 	partitionIndex map[*eqClass]*Glob.List[*termRecord] // terms in each eqClass
 	supertermIndex map[*eqClass]*Glob.List[*termRecord] // superterms of a given eqClass
 	// the last two indexes should be maintained so that only representatives of eqClasses are keys (i.e. not two keys should be congruent)
+
+	assumptionPairs []eqStruct.TermPair   // the assumptions, as they were given
+	goalPairs       [][]eqStruct.TermPair // the goals, as they were given
 }
 
 func NewProblem() *Problem {
@@ -59,6 +62,9 @@ func NewProblem() *Problem {
 		make(map[int]*termRecord),
 		make(map[*eqClass]*Glob.List[*termRecord]),
 		make(map[*eqClass]*Glob.List[*termRecord]),
+
+		[]eqStruct.TermPair{},
+		[][]eqStruct.TermPair{},
 	}
 
 	return pb
@@ -191,10 +197,12 @@ func (problem *Problem) mergeEquivalenceClasses(ec1, ec2 *eqClass) {
 }
 
 func (problem *Problem) AddAssumption(eq eqStruct.TermPair) {
+	problem.assumptionPairs = append(problem.assumptionPairs, eq)
 	problem.mergeEquivalenceClasses(problem.getEquivalenceClass(eq.GetT1()), problem.getEquivalenceClass(eq.GetT2()))
 }
 
 func (problem *Problem) AddGoal(goal []eqStruct.TermPair) {
+	problem.goalPairs = append(problem.goalPairs, goal)
 	g := Glob.NewList[*Glob.BasicPair[*eqClass, *eqClass]]()
 
 	for _, eq := range goal {
@@ -238,7 +246,42 @@ func (problem *Problem) Solve() (subs []Unif.Substitutions, success bool) {
 	}
 
 	satBuilder := buildSAT(problem)
-	return findSolution(satBuilder)
+	subs, success = findSolution(satBuilder)
+	for i := range subs {
+		subs[i] = problem.minimize(subs[i])
+	}
+	return subs, success
+}
+
+// A SAT assignment may replace metas that no goal needs to be replaced. Such a replacement is arbitrary,
+// and must not be imposed on the other branches.
+func (problem *Problem) minimize(sub Unif.Substitutions) Unif.Substitutions {
+	for i := 0; i < len(sub); {
+		smaller := append(append(Unif.MakeEmptySubstitution(), sub[:i]...), sub[i+1:]...)
+		if problem.isSolvedBy(smaller) {
+			sub = smaller
+		} else {
+			i++
+		}
+	}
+	return sub
+}
+
+// A substitution in solved form solves a goal if the goal follows from the assumptions and from the
+// equalities between the metas and the terms which replace them.
+func (problem *Problem) isSolvedBy(sub Unif.Substitutions) bool {
+	groundProblem := NewProblem()
+	for _, eq := range problem.assumptionPairs {
+		groundProblem.AddAssumption(eq)
+	}
+	for _, s := range sub {
+		meta, term := s.Get()
+		groundProblem.AddAssumption(eqStruct.MakeTermPair(meta, term))
+	}
+	for _, goal := range problem.goalPairs {
+		groundProblem.AddGoal(goal)
+	}
+	return groundProblem.HasTrivialGoals()
 }
 
 func findSolution(satBuilder *SatBuilder) (subs []Unif.Substitutions, success bool) {
@@ -312,5 +355,8 @@ func (problem *Problem) Copy() eqStruct.EqualityStruct {
 
 	newProblem.supertermIndex = newSupertermIndex
 
+	newProblem.assumptionPairs = append(newProblem.assumptionPairs, problem.assumptionPairs...)
+	newProblem.goalPairs = append(newProblem.goalPairs, problem.goalPairs...)
+
 	return newProblem
 }
-- 
2.43.0


From 604c31fd7758cbbd99f1c599ff263b3f545776a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 28/71] fix: sateq distinguishes the instances of a polymorphic
 symbol

---
 src/Mods/equality/sateq/satbuilder.go | 2 +-
 src/Mods/equality/sateq/termrep.go    | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 90c6b4f..f9d49bc 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -199,7 +199,7 @@ func (sb *SatBuilder) 𝜓Constraint(index int, ec1, ec2 *eqClass) {
 	for _, tr1 := range sb.problem.TermsInClass(ec1).Slice() {
 		if !tr1.isMeta() && len(tr1.args) != 0 {
 			for _, tr2 := range sb.problem.TermsWithSymbol(tr1.index).Slice() {
-				if tr2.eqClass.congruent(ec2) {
+				if tr1.sameInstance(tr2) && tr2.eqClass.congruent(ec2) {
 					fVar := sb.getVarFromFMapping(index, tr1, tr2)
 					vars2 := []Lit{fVar}
 
diff --git a/src/Mods/equality/sateq/termrep.go b/src/Mods/equality/sateq/termrep.go
index b3d2abb..948e3c2 100644
--- a/src/Mods/equality/sateq/termrep.go
+++ b/src/Mods/equality/sateq/termrep.go
@@ -130,6 +130,7 @@ func funTermRecord(t AST.Fun, args []*eqClass) *termRecord {
 		eqClass:  makeEqClass(),
 		meta:     nil,
 		symbolId: t.GetID(),
+		tyArgs:   t.GetTyArgs(),
 		args:     args,
 	}
 }
@@ -160,6 +161,9 @@ func (t *termRecord) congruent(t2 *termRecord) bool {
 		return false
 	}
 	if !t.isMeta() {
+		if !t.sameInstance(t2) {
+			return false
+		}
 		for i, c := range t.args {
 			if !c.congruent(t2.args[i]) {
 				return false
@@ -169,6 +173,11 @@ func (t *termRecord) congruent(t2 *termRecord) bool {
 	return true
 }
 
+// the same symbol, at the same types
+func (t *termRecord) sameInstance(t2 *termRecord) bool {
+	return t.index == t2.index && len(t.args) == len(t2.args) && Lib.ListEquals(t.tyArgs, t2.tyArgs)
+}
+
 func (t *termRecord) ToString() string {
 	//TODO implement me
 	panic("implement me")
-- 
2.43.0


From 95a9bde2fb04af92798d0734f6b0e00da9560ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 29/71] fix: an include directive stands for the selected
 statements of its file

---
 src/Parser/psyntax.go   |  13 +++++
 src/Parser/tptp_parse.y |  20 +++++---
 src/main.go             | 107 ++++++++++++++++++++++------------------
 3 files changed, 85 insertions(+), 55 deletions(-)

diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 24c4bf1..71b081e 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -35,6 +35,8 @@
 package Parser
 
 import (
+	"slices"
+
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
@@ -362,6 +364,8 @@ type PStatement struct {
 	role PFormulaRole
 	form Lib.Option[PForm]
 	ty   Lib.Option[Lib.Pair[string, PType]]
+	// the names of the statements to include, if this is an include directive with a selection
+	selection Lib.Option[[]string]
 }
 
 func (s PStatement) Name() string                                    { return s.name }
@@ -369,6 +373,15 @@ func (s PStatement) Role() PFormulaRole                              { return s.
 func (s PStatement) Form() Lib.Option[PForm]                         { return s.form }
 func (s PStatement) TypedConst() Lib.Option[Lib.Pair[string, PType]] { return s.ty }
 
+// Tells whether an include directive takes a statement of the included file.
+func (s PStatement) Selects(included PStatement) bool {
+	switch names := s.selection.(type) {
+	case Lib.Some[[]string]:
+		return slices.Contains(names.Val, included.name)
+	}
+	return true
+}
+
 /*
 A function to get a FormulaRole from a String
   - "axiom"s are accepted, without proof. There is no guarantee that the axioms of a problem are consistent.
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 17ec036..85f0855 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -73,6 +73,8 @@ type TypedVar = Lib.Pair[string, PAtomicType]
     stm PStatement
 	lstm []PStatement
 	strty Lib.Pair[string, PTypeFun]
+	names []string
+	selection Lib.Option[[]string]
 }
 
 // Tokens definition
@@ -100,6 +102,8 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 %type <stm>  tptp_input annotated_formula include fof_annotated tpi_annotated
 %type <str>  name atomic_word atomic_defined_word file_name type_constant type_functor defined_type variable constant defined_constant functor defined_functor untyped_atom
 %type <strty> number
+%type <names> name_list
+%type <selection> formula_selection
 %type <fr>   formula_role 
 %type <form>  tpi_formula
 %type <form>  tff_logic_formula tff_and_formula tff_binary_assoc tff_binary_formula tff_binary_nonassoc tff_or_formula tff_unitary_formula tff_unit_formula tff_preunit_formula tff_quantified_formula tff_unary_formula tff_prefix_unary tff_infix_unary tff_atomic_formula tff_plain_atomic_formula tff_defined_atomic tff_defined_plain
@@ -139,15 +143,15 @@ annotated_formula: fof_annotated    { $$ = $1 }
   ;
 
 tff_annotated: TFF LEFT_PAREN name COMMA formula_role COMMA tff_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, $7.form, $7.typ} }
+  { $$ = PStatement{$3, $5, $7.form, $7.typ, Lib.MkNone[[]string]()} }
   ;
 
 fof_annotated: FOF LEFT_PAREN name COMMA formula_role COMMA fof_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), Lib.MkNone[[]string]()} }
   ;
 
 tpi_annotated: TPI LEFT_PAREN name COMMA formula_role COMMA tpi_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), Lib.MkNone[[]string]()} }
   ;
 
 tpi_formula: fof_formula { $$ = $1 }
@@ -507,15 +511,15 @@ variable: UPPER_WORD { $$ = $1 }
   ;
 
 include: INCLUDE LEFT_PAREN file_name formula_selection RIGHT_PAREN DOT
-{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]]()} }
+{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]](), $4} }
   ;
 
-formula_selection:
-  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET
+formula_selection:                              { $$ = Lib.MkNone[[]string]() }
+  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET  { $$ = Lib.MkSome($3) }
   ;
 
-name_list: name
-  | name COMMA name_list
+name_list: name           { $$ = []string{$1} }
+  | name COMMA name_list  { $$ = append([]string{$1}, $3...) }
   ;
 
 source: general_term
diff --git a/src/main.go b/src/main.go
index 4f51ef7..ae485e3 100644
--- a/src/main.go
+++ b/src/main.go
@@ -43,6 +43,7 @@ import (
 	"path"
 	"runtime"
 	"runtime/pprof"
+	"slices"
 	"time"
 
 	_ "net/http/pprof"
@@ -143,7 +144,7 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	statements, bound, containsEquality := Parser.ParseTPTPFile(problem)
+	statements, bound, containsEquality := parseWithIncludes(problem, path.Dir(problem), []string{})
 	actual_statements, is_typed_problem := Engine.ToInternalSyntax(statements)
 
 	debug(
@@ -157,12 +158,7 @@ func presearchLoader() (AST.Form, int) {
 		bound = Glob.GetLimit()
 	}
 
-	form, bound, contEq, is_typed_include := StatementListToFormula(
-		actual_statements,
-		bound,
-		path.Dir(problem),
-	)
-	containsEquality = containsEquality || contEq
+	form := StatementListToFormula(actual_statements)
 
 	if !containsEquality {
 		Glob.SetPlugin("equality", false)
@@ -173,7 +169,7 @@ func presearchLoader() (AST.Form, int) {
 		Glob.Fatal(main_label, "Problem not found")
 	}
 
-	if is_typed_problem || is_typed_include {
+	if is_typed_problem {
 		checkForTypedProof(form)
 	}
 
@@ -224,16 +220,62 @@ func initDebuggers() {
 	gs3.InitDebugger()
 }
 
+// Parses a file and replaces the include directives by the (selected) statements of the included files, so
+// that a problem means the same whether or not it is split into several files.
+func parseWithIncludes(
+	file string,
+	problemDir string,
+	including []string,
+) (statements []Parser.PStatement, bound int, containsEquality bool) {
+	if slices.Contains(including, file) {
+		Glob.Fatal(main_label, fmt.Sprintf("file %s includes itself", file))
+	}
+	including = append(slices.Clone(including), file)
+
+	parsed, bound, containsEquality := Parser.ParseTPTPFile(file)
+	statements = []Parser.PStatement{}
+
+	for _, statement := range parsed {
+		if statement.Role() != Parser.Include {
+			statements = append(statements, statement)
+			continue
+		}
+
+		file_name := statement.Name()
+		realname, err := getFile(file_name, problemDir)
+		debug(
+			Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
+		)
+
+		if err != nil {
+			Glob.Fatal(main_label, err.Error())
+		}
+
+		included, new_bound, contEq := parseWithIncludes(
+			realname,
+			path.Join(problemDir, path.Dir(file_name)),
+			including,
+		)
+		// The parser counts over all the files
+		bound = new_bound
+		containsEquality = containsEquality || contEq
+
+		for _, included_statement := range included {
+			if statement.Selects(included_statement) {
+				statements = append(statements, included_statement)
+			}
+		}
+	}
+
+	return statements, bound, containsEquality
+}
+
 // FIXME: eventually, we would want to add an "interpretation" layer between elab and internal representation that does this
 func StatementListToFormula(
 	statements []Core.Statement,
-	old_bound int,
-	problemDir string,
-) (form AST.Form, bound int, containsEquality bool, is_typed_problem bool) {
+) (form AST.Form) {
 	and_list := Lib.NewList[AST.Form]()
-	is_typed_problem = false
 	negated_conjecture := Lib.MkNone[AST.Form]()
-	bound = old_bound
 
 	raise_on_multiple_conjectures := func() {
 		if _, is_some := negated_conjecture.(Lib.Some[AST.Form]); is_some {
@@ -243,35 +285,6 @@ func StatementListToFormula(
 
 	for _, statement := range statements {
 		switch statement.GetRole() {
-		case Core.Include:
-			file_name := statement.GetName()
-
-			realname, err := getFile(file_name, problemDir)
-			debug(
-				Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
-			)
-
-			if err != nil {
-				Glob.Fatal(main_label, err.Error())
-				return nil, -1, false, false
-			}
-
-			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
-			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
-			containsEquality = containsEquality || contEq
-			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
-				actual_new_lstm,
-				bound_tmp,
-				path.Join(problemDir, path.Dir(file_name)),
-			)
-			containsEquality = containsEquality || contEq
-			is_typed_problem = is_typed_problem || is_typed
-
-			if new_form_list != nil {
-				bound = new_bound
-				and_list.Append(new_form_list)
-			}
-
 		case Core.Axiom:
 			switch f := statement.GetForm().(type) {
 			case Lib.Some[AST.Form]:
@@ -317,22 +330,22 @@ func StatementListToFormula(
 	switch conj := negated_conjecture.(type) {
 	case Lib.None[AST.Form]:
 		if and_list.Empty() {
-			return nil, bound, containsEquality, is_typed_problem
+			return nil
 		} else {
-			return AST.MakerAnd(and_list), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(and_list)
 		}
 	case Lib.Some[AST.Form]:
 		if and_list.Empty() {
-			return conj.Val, bound, containsEquality, is_typed_problem
+			return conj.Val
 		} else {
 			flattened := AST.FlattenAnd(and_list)
 			flattened.Append(conj.Val)
-			return AST.MakerAnd(flattened), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(flattened)
 		}
 	}
 
 	Glob.Anomaly(main_label, "reached an unreachable state")
-	return nil, -1, false, false
+	return nil
 }
 
 func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form] {
-- 
2.43.0


From e43d3cc3626c99f65fb959825def89fdf1f5f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 30/71] fix: reset the goroutine counter under its lock

---
 src/Glob/helper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Glob/helper.go b/src/Glob/helper.go
index d20cd2e..4666b62 100644
--- a/src/Glob/helper.go
+++ b/src/Glob/helper.go
@@ -334,7 +334,9 @@ func SetDestructive(b bool) {
 }
 
 func SetNbGoroutines(i int) {
+	mutex.Lock()
 	nb_gor = i
+	mutex.Unlock()
 }
 
 func SetNbStep(i int) {
-- 
2.43.0


From 1722ff6af4f7526daedd9c43f248dcb0f7d33de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 31/71] fix: a vacuous quantifier introduces no term in GS3
 proofs

---
 src/Mods/gs3/proof.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 6f534e4..b7e3d56 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -269,6 +269,10 @@ func (gs *GS3Proof) manageGammaStep(proofStep Search.ProofStruct, rule Rule, seq
 }
 
 func getDepFromTerm(term AST.Term) Lib.List[AST.Term] {
+	if term == nil {
+		return Lib.NewList[AST.Term]()
+	}
+
 	if typedFun, ok := term.(AST.Fun); ok {
 		if strings.Contains(typedFun.GetID().GetName(), "sko") {
 			return Lib.MkListV[AST.Term](typedFun)
@@ -407,6 +411,10 @@ func (gs GS3Proof) getRulesAppliedInOrder(term AST.Term, dependantForms Lib.List
 
 func (gs GS3Proof) getOffspringsOf(term AST.Term) Lib.List[AST.Form] {
 	offsprings := Lib.NewList[AST.Form]()
+	// A vacuous quantifier is instantiated with no term.
+	if term == nil {
+		return offsprings
+	}
 	for _, form := range gs.branchForms.GetSlice() {
 		if form.GetSubTerms().Contains(term, AST.TermEquals) {
 			offsprings.Append(form)
@@ -701,6 +709,9 @@ func (gs *GS3Proof) removeFromDeltaHisto(term AST.Term) {
 func (gs *GS3Proof) weakenAllFormsRelatedToTheTerm(term AST.Term) (Lib.List[AST.Form], []Glob.Pair[Rule, Search.ProofStruct]) {
 	rules := []Glob.Pair[Rule, Search.ProofStruct]{}
 	forms := Lib.NewList[AST.Form]()
+	if term == nil {
+		return forms, rules
+	}
 	for _, form := range gs.branchForms.GetSlice() {
 		if form.GetSubTerms().Contains(term, AST.TermEquals) {
 			// Get the rule to apply it back
@@ -718,7 +729,7 @@ func (gs *GS3Proof) weakenAllFormsRelatedToTheTerm(term AST.Term) (Lib.List[AST.
 
 func (gs GS3Proof) termHasBeenIntroducedByBranch(term AST.Term, nodeId int) bool {
 	for _, p := range gs.deltaHisto {
-		if p.Fst.Equals(term) {
+		if p.Fst != nil && p.Fst.Equals(term) {
 			// DMT needs the nodeId here, as the same formula will produce the same skolem symbol in two different
 			// branches potentially.
 			return p.Snd.Snd == nodeId
-- 
2.43.0


From 555d7cd9e128a799c440746a32cd8be9384a3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 32/71] fix: a substitution replaces every occurrence of a
 metavariable

---
 src/AST/formsDef.go              |  2 +-
 src/AST/term-list.go             | 20 +++++++++++++++++++-
 src/AST/termsDef.go              | 11 +----------
 src/Core/substitutions_search.go |  2 +-
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/AST/formsDef.go b/src/AST/formsDef.go
index ed4183d..125b73c 100644
--- a/src/AST/formsDef.go
+++ b/src/AST/formsDef.go
@@ -990,7 +990,7 @@ func (p Pred) ReplaceMetaByTerm(meta Meta, term Term) Form {
 		p.GetIndex(),
 		p.id,
 		p.tys,
-		Lib.ListMap(p.args, func(t Term) Term { return t.ReplaceSubTermBy(meta, term) }),
+		Lib.ListMap(p.args, func(t Term) Term { return ReplaceAllOccurrences(t, meta, term) }),
 	)
 }
 
diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..4bb06a2 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -93,7 +93,7 @@ func ReplaceOccurrence(
 
 	for i := range tl.GetSlice() {
 		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		trm := tl.At(i).ReplaceSubTermBy(replaceThis, withThis)
+		trm := ReplaceAllOccurrences(tl.At(i), replaceThis, withThis)
 		if !trm.Equals(tl.At(i)) {
 			hasUpdated = true
 		}
@@ -103,6 +103,24 @@ func ReplaceOccurrence(
 	return res, hasUpdated
 }
 
+/* Replace all occurrences of a term by another in a term, whatever their depth */
+func ReplaceAllOccurrences(term, replaceThis, withThis Term) Term {
+	if term.Equals(replaceThis) {
+		return withThis.Copy()
+	}
+
+	fun, isFun := term.(Fun)
+	if !isFun {
+		return term
+	}
+
+	args, replaced := ReplaceOccurrence(fun.GetArgs(), replaceThis, withThis)
+	if !replaced {
+		return fun
+	}
+	return MakerFun(fun.GetID(), fun.GetTyArgs(), args)
+}
+
 func EqualsWithoutOrder(tl, other Lib.List[Term]) bool {
 	if tl.Len() != other.Len() {
 		return false
diff --git a/src/AST/termsDef.go b/src/AST/termsDef.go
index 5ceef28..5492cfd 100644
--- a/src/AST/termsDef.go
+++ b/src/AST/termsDef.go
@@ -223,16 +223,7 @@ func (f Fun) SubstTy(old TyGenVar, new Ty) Term {
 }
 
 func (f Fun) ReplaceAllSubTerm(oldTerm, newTerm Term) Term {
-	if f.Equals(oldTerm) {
-		return newTerm.Copy()
-	} else {
-		tl, res := ReplaceOccurrence(f.GetArgs(), oldTerm, newTerm)
-		nf := MakeFun(f.GetID(), f.GetTyArgs(), tl, f.metas.Raw())
-		if !res && !f.metas.NeedsUpd() {
-			nf.metas.AvoidUpd()
-		}
-		return nf
-	}
+	return ReplaceAllOccurrences(f, oldTerm, newTerm)
 }
 
 func (f Fun) GetSubTerms() Lib.List[Term] {
diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index a12c709..97b6d3a 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -272,7 +272,7 @@ func ApplySubstitutionsOnTerm(substs Lib.List[Unif.MixedSubstitution], t AST.Ter
 			t = t.SubstTy(meta, ty)
 		case Lib.Right[Unif.TySubstitution, Unif.Substitution]:
 			meta, term := s.Val.Get()
-			t = t.ReplaceSubTermBy(meta, term)
+			t = ApplySubstitutionOnTerm(meta, term, t)
 		}
 	}
 
-- 
2.43.0


From 2e8c2b72eb1c1c5dc2f273b690eed60a7c7575b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 33/71] fix: output the proof of a problem that has no
 conjecture

---
 src/Mods/lambdapi/proof.go | 14 ++++++++------
 src/Mods/rocq/proof.go     | 22 ++++++++++++----------
 src/Mods/tptp/proof.go     | 23 ++++++++++-------------
 3 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/Mods/lambdapi/proof.go b/src/Mods/lambdapi/proof.go
index 4db3d34..9b9dcf0 100644
--- a/src/Mods/lambdapi/proof.go
+++ b/src/Mods/lambdapi/proof.go
@@ -353,18 +353,20 @@ func gammaNotEx(proof *gs3.GS3Sequent) string {
 	return allRulesQuantUniv("GS3nex", proof.GetTargetForm(), composingForms, proof.Children(), proof.GetResultFormulasOfChildren(), formulaEx.GetVarList(), proof.TermGenerated())
 }
 
-// Processes the formula that was proven by Goéland.
+// Processes the formula that was proven by Goéland. A problem needs not have a conjecture, in which case what is
+// proven is that its axioms are contradictory.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		form = nf.GetChildFormulas().At(last).(AST.Not).GetForm()
+		if conjecture, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), conjecture.GetForm()
+		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index e6c2721..c5e999a 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -52,7 +52,7 @@ var dummy int
 func makeRocqProofFromGS3(proof *gs3.GS3Sequent) string {
 	dummy = 0
 	axioms, conjecture := processMainFormula(proof.GetTargetForm())
-	totalAxioms := axioms.Len()
+	_, startsFromConjunction := proof.GetTargetForm().(AST.And)
 	if Glob.IsLoaded("dmt") {
 		axioms.Append(dmt.GetRegisteredAxioms().GetSlice()...)
 	}
@@ -66,9 +66,9 @@ func makeRocqProofFromGS3(proof *gs3.GS3Sequent) string {
 			indices[i], hypotheses = introduce(form, hypotheses)
 		}
 		resultingString += "intros " + strings.Join(Glob.MapTo(indices, func(_ int, index int) string { return introName(index) }), " ") + ". "
-		if totalAxioms > 0 {
-			proof = proof.Child(0)
-		}
+	}
+	if startsFromConjunction {
+		proof = proof.Child(0)
 	}
 	index, hypotheses := introduce(AST.MakerNot(conjecture), hypotheses)
 	resultingString += "intro " + introName(index) + ". "
@@ -237,18 +237,20 @@ func rewriteStep(rewriteRule AST.Form, hypotheses Lib.List[AST.Form], target int
 	return resultingString, []Lib.List[AST.Form]{hypotheses}
 }
 
-// Processes the formula that was proven by Goéland.
+// Processes the formula that was proven by Goéland. A problem needs not have a conjecture, in which case what is
+// proven is that its axioms are contradictory.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		form = nf.GetChildFormulas().At(last).(AST.Not).GetForm()
+		if conjecture, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), conjecture.GetForm()
+		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 53a18f0..5ff6baf 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -72,10 +72,10 @@ func makeTptpProofFromGS3(proof *gs3.GS3Sequent) string {
 
 	firstStep, nextId := performFirstStep(axioms, conjecture, hypotheses, 0)
 
-	if axioms.Len() == 0 {
-		resultingString += followProofSteps(proof, hypotheses, nextId)
-	} else {
+	if _, startsFromConjunction := proof.GetTargetForm().(AST.And); startsFromConjunction {
 		resultingString += followProofSteps(proof.Child(0), hypotheses, nextId)
+	} else {
+		resultingString += followProofSteps(proof, hypotheses, nextId)
 	}
 
 	res := resultingString + "\n" + firstStep + AxiomCut
@@ -488,23 +488,20 @@ func NotEquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int
 
 /*** Initial Formula Management ***/
 
-// Processes the formula that was proven by Goéland.
+// Processes the formula that was proven by Goéland. A problem needs not have a conjecture, in which case what is
+// proven is that its axioms are contradictory.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		switch f := nf.GetChildFormulas().At(last).(type) {
-		case AST.Not:
-			form = f.GetForm()
-		default:
-			form = f
+		if conjecture, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), conjecture.GetForm()
 		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
-- 
2.43.0


From ed0a3b748ef7c14ac911d40e3756ac1453cef30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 34/71] fix: print proofs verbatim, not as a format string

---
 src/Search/print_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/print_proof.go b/src/Search/print_proof.go
index 69cf734..50bead9 100644
--- a/src/Search/print_proof.go
+++ b/src/Search/print_proof.go
@@ -83,5 +83,5 @@ func (ps *OutputProofStruct) printProofWithProofStruct(finalProof []ProofStruct,
 		f.WriteString(output)
 	}
 
-	fmt.Printf("\n" + output)
+	fmt.Print("\n" + output)
 }
-- 
2.43.0


From 0911c04d456d4763b68886d386dc4a9759065c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 35/71] fix: a child keeps its unifiers when its father may
 still backtrack

---
 src/Search/destructive.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 1ef43a2..f34c002 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -459,7 +459,16 @@ func (ds *destructiveSearch) waitChildren(args wcdArgs) {
 			}),
 		)
 		if status == CLOSE_BY_ITSELF || status == SUBST_FOR_PARENT {
-			// Updates the Glob unifier using the children's. Every substitution is compatible.
+			// Updates the Glob unifier using the children's, once restricted to the ones that are compatible
+			// with the substitution they were given.
+			if !args.currentSubst.IsEmpty() {
+				for i := range unifiers {
+					unifiers[i].PruneUncompatibleSubstitutions(args.currentSubst.GetSubst())
+					if unifiers[i].IsEmpty() {
+						unifiers[i].AddSubstitutions(args.currentSubst.GetSubst(), args.currentSubst.GetSubst())
+					}
+				}
+			}
 			args.st.SetGlobUnifier(Core.MergeUnifierList(unifiers))
 		}
 		var err error
@@ -531,8 +540,9 @@ func (ds *destructiveSearch) waitFather(father_id uint64, st State, c Communicat
 					subst = answer_father.getSubstForChildren().AddFormulas(subst_sent.GetForm())
 				}
 			}
+			// The father prunes what is not compatible with this substitution: it may backtrack and choose
+			// another one later, so nothing should be forgotten here.
 			unifier := st.GetGlobUnifier()
-			unifier.PruneUncompatibleSubstitutions(subst.GetSubst())
 			if unifier.IsEmpty() {
 				unifier.AddSubstitutions(st.GetAppliedSubst().GetSubst(), st.GetAppliedSubst().GetSubst())
 			}
-- 
2.43.0


From 231f67f808555b7dae0e52f2ebe4ec974a326e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 36/71] fix: a substitution chosen by a backtrack is the
 current one

---
 src/Search/child_management.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index a71c6a1..e4f6c91 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -297,6 +297,7 @@ func (ds *destructiveSearch) manageOpenedChild(args wcdArgs) {
 		// Mutually exclusive cases: when a backtrack is done on substitutions, this backtrack is prioritised from now on.
 		args.st.SetBTOnFormulas(false)
 		args.overwrite = false
+		args.currentSubst = newSubst
 		ds.waitChildren(args)
 	} else {
 		debug(
-- 
2.43.0


From f6ba708e182744b16364a934bd43d3c2274837db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 37/71] fix: mother metas linked through a local meta stay
 linked

---
 src/Core/substitutions_search.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index 97b6d3a..0eef450 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -100,10 +100,13 @@ func RemoveElementWithoutMM(
 
 				switch typedTerm := term.(type) {
 				case AST.Meta:
-					if relevantMetas.Contains(meta) &&
-						relevantMetas.Contains(typedTerm) {
+					// Metas of the mother which share a local meta are linked by
+					// ReorganizeSubstitution, even when the local meta is dropped.
+					if relevantMetas.Contains(meta) {
 						subst_to_reorganize.Set(meta, typedTerm)
-						res.Set(meta, typedTerm)
+						if relevantMetas.Contains(typedTerm) {
+							res.Set(meta, typedTerm)
+						}
 					}
 
 				default:
-- 
2.43.0


From 31a645a815221c592e767f6c056414dcc7f4fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 38/71] fix: a vacuous quantifier renames no Skolem term in
 TPTP proofs

---
 src/Mods/tptp/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 5ff6baf..1490206 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -260,7 +260,10 @@ func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 
 	new_term := createNewConstant(proof.TermGenerated())
 
-	proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	// A vacuous quantifier introduces no term, so there is nothing to rename.
+	if proof.TermGenerated() != nil {
+		proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	}
 
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d, '%s'], [%s])).",
 		prefix_step,
@@ -688,7 +691,7 @@ func findInConstants(term AST.Term) AST.Term {
 
 func getCreatedFromOriginal(term AST.Term) AST.Term {
 	for i, t := range original_term {
-		if t.Equals(term) {
+		if t != nil && t.Equals(term) {
 			return constant_created[i]
 		}
 	}
-- 
2.43.0


From 61a0ad884573946d41231011c31654a2f8df4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 39/71] fix: TPTP output binds the whole body of a quantifier
 and prints free metavariables apart

---
 src/AST/quantifiers.go  |  2 +-
 src/Mods/tptp/output.go | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index a7e8a95..1e95a33 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -90,7 +90,7 @@ func (q quantifier) ToString() string {
 			}).ToString(printer.StrTyVar, Lib.WithSep(printer.StrConn(SepTyVars)), Lib.WithEmpty("")),
 		),
 		printer.StrConn(SepVarsForm),
-		printer.Str(q.subForm.ToString()),
+		printer.Str(printer.SurroundChild(q.subForm.ToString())),
 	)
 }
 
diff --git a/src/Mods/tptp/output.go b/src/Mods/tptp/output.go
index 586f951..c3541d3 100644
--- a/src/Mods/tptp/output.go
+++ b/src/Mods/tptp/output.go
@@ -37,6 +37,8 @@
 package tptp
 
 import (
+	"fmt"
+
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
@@ -66,10 +68,26 @@ func MakeTptpOutput(prf []Search.ProofStruct, meta Lib.List[AST.Meta]) string {
 		prefix_const = "Sko_"
 	}
 
+	// A metavariable that was left free must not be printed as the variable it was created from.
+	printer := AST.GetPrinter()
+	AST.ComposePrinter(tptpPrinterAction())
+	defer AST.SetPrinter(printer)
+
 	// Transform tableaux's proof in GS3 proof
 	return MakeTptpProof(gs3.MakeGS3Proof(prf), meta)
 }
 
+func tptpPrinterAction() AST.PrinterAction {
+	return AST.MkPrinterAction(
+		AST.PrinterIdentity,
+		func(i AST.Id) string { return i.GetName() },
+		AST.PrinterIdentity2[int],
+		func(metaName string, index int) string { return fmt.Sprintf("%s_%d", metaName, index) },
+		AST.PrinterIdentity,
+		AST.PrinterIdentityPair[AST.Ty],
+	)
+}
+
 var MakeTptpProof = func(proof *gs3.GS3Sequent, meta Lib.List[AST.Meta]) string {
 	proofString := makeTptpProofFromGS3(proof)
 	return proofString
-- 
2.43.0


From ca2aeaed187ce6c0842cce937ca9b4ecc6438a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 40/71] fix: TPTP proofs of equivalences with a negated side
 name the right formula

---
 src/Mods/tptp/proof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 1490206..9ed9b1b 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -393,7 +393,7 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 	// Branch 2.closure : from ~A, A closure - check polarity before
 	newHypS2Closure := Lib.ListCpy(newHypS2)
 	newHypS2Closure = Lib.ListAdd(newHypS2Closure, A)
-	targetPosS2 := findIndexPos(A, newHypS2Closure, get(A, newHypS2Closure))
+	targetPosS2 := get(A, newHypS2Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s2_closure_id,
 		Lib.ListToString(newHypS2Closure, Lib.WithEmpty("")),
@@ -418,7 +418,7 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 	// Branch 3.closure : from B, ~B closure - check polarity before
 	newHypS3Closure := Lib.ListCpy(newHypS3)
 	newHypS3Closure = Lib.ListAdd(newHypS3Closure, notB.Copy())
-	targetPosS3 := findIndexPos(B, newHypS3Closure, get(B, newHypS3Closure))
+	targetPosS3 := get(B, newHypS3Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s3_closure_id,
 		Lib.ListToString(newHypS3Closure, Lib.WithEmpty("")),
-- 
2.43.0


From 8058bae6f500521390eb6c7d359592e9dc99f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 41/71] fix: TPTP proofs close on equality, $true and $false

---
 src/Mods/tptp/proof.go | 66 ++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 9ed9b1b..eea7236 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -132,28 +132,24 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	next_child_weakened_id := -1
 
 	updateId(proof, new_current_id)
+
+	// The bare equality symbol of an equality closure is not one of the hypotheses.
+	if proof.Rule() == gs3.AX && isPredEqual(proof.GetTargetForm()) {
+		resultingString = fmt.Sprintf("fof("+prefix_step+"%d, plain, [%s] --> [], inference(%s, [status(thm)], [%s])).",
+			proof.GetId(),
+			Lib.ListToString(hypotheses, Lib.WithEmpty("")),
+			"congruence",
+			"")
+		return resultingString + "\n", childrenHypotheses, next_child_weakened_id
+	}
+
 	target := get(proof.GetTargetForm(), hypotheses)
 
 	switch proof.Rule() {
 
 	// Closure.
 	case gs3.AX:
-		if isPredEqual(proof.GetTargetForm()) {
-			resultingString = fmt.Sprintf("fof("+prefix_step+"%d, plain, [%s] --> [], inference(%s, [status(thm)], [%s])).",
-				proof.GetId(),
-				Lib.ListToString(hypotheses, Lib.WithEmpty("")),
-				"congruence",
-				"")
-		} else {
-			targetPos := findIndexPos(proof.GetTargetForm(), hypotheses, target)
-
-			resultingString = fmt.Sprintf("fof("+prefix_step+"%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).",
-				proof.GetId(),
-				Lib.ListToString(hypotheses, Lib.WithEmpty("")),
-				"leftHyp",
-				targetPos,
-				"")
-		}
+		resultingString = closureStep(proof, hypotheses, target)
 
 	// Alpha rules
 	case gs3.NNOT:
@@ -204,6 +200,44 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	return resultingString + "\n", childrenHypotheses, next_child_weakened_id
 }
 
+func closureStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) string {
+	context := Lib.ListToString(hypotheses, Lib.WithEmpty(""))
+
+	if Glob.Is[AST.Bot](proof.GetTargetForm()) {
+		return fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [])).",
+			prefix_step,
+			proof.GetId(),
+			context,
+			"leftFalse",
+			target)
+	}
+
+	if not, isNot := proof.GetTargetForm().(AST.Not); isNot && Glob.Is[AST.Top](not.GetForm()) {
+		true_id := fmt.Sprintf("%s%dext1", prefix_step, proof.GetId())
+		return fmt.Sprintf("fof(%s, plain, [%s] --> [%s], inference(%s, [status(thm), %d], [])).\n\n",
+			true_id,
+			context,
+			not.GetForm().ToString(),
+			"rightTrue",
+			0) +
+			fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).",
+				prefix_step,
+				proof.GetId(),
+				context,
+				"leftNot",
+				target,
+				true_id)
+	}
+
+	return fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).",
+		prefix_step,
+		proof.GetId(),
+		context,
+		"leftHyp",
+		findIndexPos(proof.GetTargetForm(), hypotheses, target),
+		"")
+}
+
 func alphaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form]) {
 
 	children_id := []int{}
-- 
2.43.0


From 1cf4cf260d8db8bfeba94926601d47bbd7ff9808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 42/71] fix: TPTP proofs with inner skolemization

---
 src/Mods/gs3/sequent.go |  5 ++++-
 src/Mods/tptp/output.go |  3 ++-
 src/Mods/tptp/proof.go  | 22 ++++++++++------------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/Mods/gs3/sequent.go b/src/Mods/gs3/sequent.go
index 103ff7b..ac0c01a 100644
--- a/src/Mods/gs3/sequent.go
+++ b/src/Mods/gs3/sequent.go
@@ -126,8 +126,11 @@ func (seq *GS3Sequent) GetResultFormulasOfChild(i int) Lib.List[AST.Form] {
 func (seq *GS3Sequent) GetResultFormulasOfChildren() []Lib.List[AST.Form] {
 	result := []Lib.List[AST.Form]{}
 
+	// A weakening has a child but generates no formula.
 	for i := range seq.children {
-		result = append(result, seq.formsGenerated[i])
+		if i < len(seq.formsGenerated) {
+			result = append(result, seq.formsGenerated[i])
+		}
 	}
 
 	return result
diff --git a/src/Mods/tptp/output.go b/src/Mods/tptp/output.go
index c3541d3..11c2e3c 100644
--- a/src/Mods/tptp/output.go
+++ b/src/Mods/tptp/output.go
@@ -78,7 +78,7 @@ func MakeTptpOutput(prf []Search.ProofStruct, meta Lib.List[AST.Meta]) string {
 }
 
 func tptpPrinterAction() AST.PrinterAction {
-	return AST.MkPrinterAction(
+	tptp_action := AST.MkPrinterAction(
 		AST.PrinterIdentity,
 		func(i AST.Id) string { return i.GetName() },
 		AST.PrinterIdentity2[int],
@@ -86,6 +86,7 @@ func tptpPrinterAction() AST.PrinterAction {
 		AST.PrinterIdentity,
 		AST.PrinterIdentityPair[AST.Ty],
 	)
+	return tptp_action.Compose(AST.SanitizerAction(AST.DefaultPrinterConnectives(), []string{"@"}))
 }
 
 var MakeTptpProof = func(proof *gs3.GS3Sequent, meta Lib.List[AST.Meta]) string {
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index eea7236..c7fb4d5 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -92,6 +92,10 @@ func followProofSteps(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_
 	if !proof.IsEmpty() {
 		resultingStringParent, childrenHypotheses, new_current_id = makeProofStep(proof, hypotheses, new_current_id)
 	}
+	// An empty sequent prints no step: the one below it takes its place.
+	if proof.IsEmpty() && new_current_id == -1 {
+		new_current_id = proof.GetId()
+	}
 	for i, child := range proof.Children() {
 		if proof.IsEmpty() {
 			resultingString += followProofSteps(child, Lib.ListCpy(hypotheses), new_current_id) + "\n"
@@ -187,11 +191,7 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 
 	// Weakening rule
 	case gs3.W:
-		if proof.TermGenerated() != nil {
-			resultingString = fmt.Sprintf("leftWeaken %s", findInConstants(proof.TermGenerated()).ToString())
-		} else {
-			resultingString, childrenHypotheses, next_child_weakened_id = weakenStep(proof, hypotheses, target, "leftWeaken")
-		}
+		resultingString, childrenHypotheses, next_child_weakened_id = weakenStep(proof, hypotheses, target, "leftWeaken")
 
 	case gs3.REWRITE:
 		resultingString, childrenHypotheses = rewriteStep(proof.GetRewriteWith(), hypotheses, target, proof.GetResultFormulasOfChild(0).At(0))
@@ -342,10 +342,6 @@ func gammaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 func weakenStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form], int) {
 	child_id := incrByOne(&id_proof_step, &mutex_proof_step)
 
-	if target != -1 {
-		hypotheses = hypotheses.RemoveAt(target)
-	}
-
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s%d])).",
 		prefix_step,
 		proof.GetId(),
@@ -671,12 +667,14 @@ func updateId(proof *gs3.GS3Sequent, i int) {
 func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequent {
 
 	// Update Target Form
-	new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
-	proof.SetTargetForm(new_target_form)
+	if !proof.IsEmpty() {
+		new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
+		proof.SetTargetForm(new_target_form)
+	}
 
 	// Update generated term
 	if proof.TermGenerated() != nil {
-		new_generated_term := proof.TermGenerated().ReplaceSubTermBy(old, new)
+		new_generated_term := AST.ReplaceAllOccurrences(proof.TermGenerated(), old, new)
 		proof.SetTermGenerated(new_generated_term)
 	}
 
-- 
2.43.0


From 5fab166bb8e73202ed7ef7ef6a4095709bb361f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 43/71] fix: TPTP gamma steps name the term of their own branch

---
 src/Mods/tptp/proof.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index c7fb4d5..d091fcb 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -55,7 +55,6 @@ import (
 var mutex_proof_step sync.Mutex
 var id_proof_step = 0
 var mutex_constant sync.Mutex
-var original_term = make([]AST.Term, 0)
 var constant_created = make([]AST.Term, 0)
 var prefix_step = "f"
 var prefix_axiom_cut = "ac"
@@ -292,7 +291,7 @@ func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 		c.SetId(new_id)
 	}
 
-	new_term := createNewConstant(proof.TermGenerated())
+	new_term := createNewConstant()
 
 	// A vacuous quantifier introduces no term, so there is nothing to rename.
 	if proof.TermGenerated() != nil {
@@ -330,7 +329,7 @@ func gammaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 		Lib.ListToString(hypotheses, Lib.WithEmpty("")),
 		format,
 		target,
-		findInConstants(proof.TermGenerated()).ToString(),
+		instantiationTerm(proof.TermGenerated()).ToString(),
 		Glob.IntListToString(children_id, prefix_step))
 
 	newHypotheses := Lib.ListCpy(hypotheses)
@@ -702,30 +701,20 @@ func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequen
 
 /*** Constant created Management ***/
 
-func createNewConstant(term AST.Term) AST.Term {
+func createNewConstant() AST.Term {
 	mutex_constant.Lock()
 	new_id := len(constant_created)
 	new_term_name := fmt.Sprintf("%s%d", prefix_const, new_id)
 	new_term := AST.MakerConst(AST.MakerNewId(new_term_name))
-	original_term = append(original_term, term)
 	constant_created = append(constant_created, new_term)
 	mutex_constant.Unlock()
 	return new_term
 }
 
-func findInConstants(term AST.Term) AST.Term {
+// The constants introduced above a gamma step have already been put in its term by [updateSkolemSymbol].
+func instantiationTerm(term AST.Term) AST.Term {
 	if term == nil {
 		return dummyTerm
-	} else {
-		return getCreatedFromOriginal(term)
-	}
-}
-
-func getCreatedFromOriginal(term AST.Term) AST.Term {
-	for i, t := range original_term {
-		if t != nil && t.Equals(term) {
-			return constant_created[i]
-		}
 	}
 	return term
 }
-- 
2.43.0


From 4d6dae86d86e5c542ef48b94eba8fdf4d3221576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 44/71] fix: children agree on a substitution only when each of
 them sent it

---
 src/Search/destructive.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index f34c002..3946cf1 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -786,15 +786,19 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 						// Children sent the same substitution, eventually with new forms
 						new_current_subst = current_subst.AddFormulas(res.subst_list_for_father[0].GetForm())
 					} else {
-						// Reset at each step
+						// A common substitution has to be sent by all the children, not only by two of them
+						candidates := result_subst
+						if cpt_children_returning_subst > 1 {
+							candidates = common_substs
+						}
 						common_substs = []Core.SubstAndForm{}
 
 						// Check if there is common substitutions
 						for _, current_subst_from_children := range res.subst_list_for_father {
-							for i := range result_subst {
+							for i := range candidates {
 								if Lib.ListEquals(
 									current_subst_from_children.GetSubst(),
-									result_subst[i].GetSubst(),
+									candidates[i].GetSubst(),
 								) {
 									debug(
 										Lib.MkLazy(func() string {
@@ -804,7 +808,7 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 											)
 										}),
 									)
-									common_substs = append(common_substs, result_subst[i].AddFormulas(current_subst_from_children.GetForm()))
+									common_substs = append(common_substs, candidates[i].AddFormulas(current_subst_from_children.GetForm()))
 								}
 							}
 						}
-- 
2.43.0


From 77214c2fc309944420ba1c3dadfea0b2221ea868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 45/71] fix: only TPTP output surrounds the body of quantifiers

---
 src/AST/modular-printing.go |  8 ++++++++
 src/AST/quantifiers.go      |  2 +-
 src/Mods/tptp/output.go     | 15 ++++++++++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index 2ab7dc9..e12d485 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -180,6 +180,10 @@ func (p PrinterConnective) SurroundChild(s string) string {
 	return fmt.Sprintf("%s%s%s", p.StrConn(SurComplexChildStart), s, p.StrConn(SurComplexChildEnd))
 }
 
+func (p PrinterConnective) SurroundBody(s string) string {
+	return fmt.Sprintf("%s%s%s", p.StrConn(SurBodyStart), s, p.StrConn(SurBodyEnd))
+}
+
 type Printer struct {
 	PrinterAction
 	*PrinterConnective
@@ -252,6 +256,8 @@ const (
 	SurFunctionalEnd
 	SurComplexChildStart // Surrounds "complex" child of formula/type (e.g. (A * B) > C)
 	SurComplexChildEnd
+	SurBodyStart // Surrounds the body of quantifiers
+	SurBodyEnd
 )
 
 func DefaultPrinterConnectives() PrinterConnective {
@@ -285,6 +291,8 @@ func DefaultPrinterConnectives() PrinterConnective {
 			SurFunctionalEnd:     ")",
 			SurComplexChildStart: "(",
 			SurComplexChildEnd:   ")",
+			SurBodyStart:         "",
+			SurBodyEnd:           "",
 		},
 	)
 }
diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index 1e95a33..59865ab 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -90,7 +90,7 @@ func (q quantifier) ToString() string {
 			}).ToString(printer.StrTyVar, Lib.WithSep(printer.StrConn(SepTyVars)), Lib.WithEmpty("")),
 		),
 		printer.StrConn(SepVarsForm),
-		printer.Str(printer.SurroundChild(q.subForm.ToString())),
+		printer.Str(printer.SurroundBody(q.subForm.ToString())),
 	)
 }
 
diff --git a/src/Mods/tptp/output.go b/src/Mods/tptp/output.go
index 11c2e3c..1085ba4 100644
--- a/src/Mods/tptp/output.go
+++ b/src/Mods/tptp/output.go
@@ -69,14 +69,27 @@ func MakeTptpOutput(prf []Search.ProofStruct, meta Lib.List[AST.Meta]) string {
 	}
 
 	// A metavariable that was left free must not be printed as the variable it was created from.
+	// The body of a quantifier extends to its last connective only between parentheses.
 	printer := AST.GetPrinter()
-	AST.ComposePrinter(tptpPrinterAction())
 	defer AST.SetPrinter(printer)
+	connectives := tptpPrinterConnectives()
+	AST.SetPrinter(AST.Printer{PrinterAction: printer.PrinterAction, PrinterConnective: &connectives})
+	AST.ComposePrinter(tptpPrinterAction())
 
 	// Transform tableaux's proof in GS3 proof
 	return MakeTptpProof(gs3.MakeGS3Proof(prf), meta)
 }
 
+func tptpPrinterConnectives() AST.PrinterConnective {
+	return AST.MkPrinterConnective(
+		"TptpPrinterConnective",
+		map[AST.Connective]string{
+			AST.SurBodyStart: "(",
+			AST.SurBodyEnd:   ")",
+		},
+	)
+}
+
 func tptpPrinterAction() AST.PrinterAction {
 	tptp_action := AST.MkPrinterAction(
 		AST.PrinterIdentity,
-- 
2.43.0


From c02fe64577e31bfab1448ab0ca992d391f62836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 46/71] fix: a term has the type that its position expects

---
 src/Typing/rules.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 96c0e16..613e9ca 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -66,6 +66,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			f.GetID().GetName(),
 			f.GetTyArgs(),
 			f.GetArgs(),
+			AST.TProp(),
 			Lib.MkLazy(func() string { return form.ToString() }),
 		)
 
@@ -133,6 +134,7 @@ func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 			t.GetID().GetName(),
 			t.GetTyArgs(),
 			t.GetArgs(),
+			ty,
 			Lib.MkLazy(func() string { return t.ToString() }),
 		)
 	}
@@ -216,6 +218,7 @@ func checkFunctional(
 	name string,
 	tys Lib.List[AST.Ty],
 	args Lib.List[AST.Term],
+	expected AST.Ty,
 	debug_str Lib.Lazy[string],
 ) bool {
 	oty := QueryEnvInstance(name, tys)
@@ -237,6 +240,18 @@ func checkFunctional(
 			args,
 			instantiated_ty,
 		)
+
+		if result_ty := resultTy(ty.Val); !isSubType(result_ty, expected) {
+			Glob.Fatal(
+				label,
+				fmt.Sprintf(
+					"%s has type %s, but a term of type %s is expected",
+					debug_str.Run(), result_ty.ToString(), expected.ToString(),
+				),
+			)
+			return false
+		}
+
 		tys.Append(AST.GetOutTy(ty.Val))
 
 		return typecheckRec(con, Lib.NewList[AST.Form](), terms_checker, tys)
@@ -250,6 +265,21 @@ func checkFunctional(
 	return false
 }
 
+// Type of a fully applied symbol which has type [ty].
+func resultTy(ty AST.Ty) AST.Ty {
+	if Glob.Is[AST.TyFunc](ty) {
+		return AST.GetOutTy(ty)
+	}
+	return ty
+}
+
+// Numbers are embedded in the wider numeric types: $quotient(2, 2), which is a $rat, may be compared to the $int 1.
+func isSubType(ty, expected AST.Ty) bool {
+	return ty.Equals(expected) ||
+		ty.Equals(AST.TInt()) && (expected.Equals(AST.TRat()) || expected.Equals(AST.TReal())) ||
+		ty.Equals(AST.TRat()) && expected.Equals(AST.TReal())
+}
+
 func typecheckRec(
 	con Con,
 	forms Lib.List[AST.Form],
-- 
2.43.0


From 5e053fc8047cb00d72b630acbb1220b5c6d38562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 47/71] fix: the two sides of an inequality unify with their
 type arguments

---
 src/Search/rules.go                | 18 ++++++------------
 src/Unif/matching_substitutions.go | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/Search/rules.go b/src/Search/rules.go
index b9b490b..6bf744f 100644
--- a/src/Search/rules.go
+++ b/src/Search/rules.go
@@ -73,11 +73,7 @@ func ApplyClosureRules(form AST.Form, state *State) (bool, Lib.List[Lib.List[Uni
 	substFound, substs := searchInequalities(form)
 	if substFound {
 		result = true
-		mixed_substs := Lib.NewList[Unif.MixedSubstitution]()
-		for _, subst := range substs {
-			mixed_substs.Append(Unif.MkMixedFromSubst(subst))
-		}
-		substitutions.Append(mixed_substs)
+		substitutions.Append(substs)
 	}
 
 	substFound, matchSubsts := searchClosureRule(f, *state)
@@ -155,9 +151,7 @@ func searchObviousClosureRule(f AST.Form) bool {
 }
 
 /* Search contradiction with inequalities (for example, !(x,a) -> subst(x, a)) */
-func searchInequalities(form AST.Form) (bool, Unif.Substitutions) {
-	subst := Unif.MakeEmptySubstitution()
-
+func searchInequalities(form AST.Form) (bool, Lib.List[Unif.MixedSubstitution]) {
 	if formNot, isNot := form.(AST.Not); isNot {
 		if predNeq, isPred := formNot.GetForm().(AST.Pred); isPred {
 			if predNeq.GetID().Equals(AST.Id_eq) {
@@ -181,19 +175,19 @@ func searchInequalities(form AST.Form) (bool, Unif.Substitutions) {
 					Lib.MkLazy(func() string { return fmt.Sprintf("Arg 2 : %v", arg_2.ToString()) }),
 				)
 
-				subst = Unif.AddUnification(arg_1, arg_2, subst)
+				unifiable, subst := Unif.UnifyTerms(arg_1, arg_2)
 				debug(
-					Lib.MkLazy(func() string { return fmt.Sprintf("Subst : %v", subst.ToString()) }),
+					Lib.MkLazy(func() string { return fmt.Sprintf("Subst : %v", Lib.ListToString(subst)) }),
 				)
 
-				if !subst.Equals(Unif.Failure()) {
+				if unifiable {
 					return true, subst
 				}
 			}
 		}
 	}
 
-	return false, nil
+	return false, Lib.NewList[Unif.MixedSubstitution]()
 }
 
 /* Search a contradiction between a formula and another in the datastructure */
diff --git a/src/Unif/matching_substitutions.go b/src/Unif/matching_substitutions.go
index 7ed91cb..d879ae1 100644
--- a/src/Unif/matching_substitutions.go
+++ b/src/Unif/matching_substitutions.go
@@ -133,6 +133,23 @@ func MkMixedFromTy(subst TySubstitution) MixedSubstitution {
 	return MixedSubstitution{Lib.MkLeft[TySubstitution, Substitution](subst)}
 }
 
+/* Unifies two terms, type arguments included. */
+func UnifyTerms(term1, term2 AST.Term) (bool, Lib.List[MixedSubstitution]) {
+	subst := AddUnification(
+		MakerTermForm(term1).GetTerm(),
+		MakerTermForm(term2).GetTerm(),
+		MakeEmptySubstitution(),
+	)
+	mixed := Lib.NewList[MixedSubstitution]()
+	if subst.Equals(Failure()) {
+		return false, mixed
+	}
+	for _, s := range subst {
+		mixed.Append(translateFromSubst(s))
+	}
+	return true, mixed
+}
+
 func FromSubstitutions(substs Substitutions) Lib.List[MixedSubstitution] {
 	mixed_substs := Lib.MkList[MixedSubstitution](len(substs))
 	for i, subst := range substs {
-- 
2.43.0


From 59edb15e63ce5b86c89a7580e3cda72dcfa07090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 48/71] fix: a comment may follow a number

---
 src/Parser/tptp_lex.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 957fce9..034c18e 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -744,7 +744,13 @@ func (lexer *TPTPLex) unsignedRational(yylval *TPTPSymType) bool {
 
 	yylval.str += "/"
 	lexer.advance()
-	return lexer.positiveDecimal(yylval)
+	if !lexer.positiveDecimal(yylval) {
+		// The slash begins a comment
+		lexer.remove(len(yylval.str) - pos)
+		yylval.str = yylval.str[:pos]
+		return false
+	}
+	return true
 }
 
 // %----Character classes
-- 
2.43.0


From 2cd3fca2ebacecb723d02e94639f94b4c7a4141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 49/71] fix: adding a variable to a typing context leaves the
 context of its siblings as it is

---
 src/Typing/env-and-context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index d46d261..6bf46b0 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -78,8 +78,9 @@ func (con Con) Copy() Con {
 	return Con{con.defs.Copy()}
 }
 
+// Adding to a set changes it in place, and the siblings of a formula are checked in the same context.
 func (con Con) add(name string, ty AST.Ty) Con {
-	return Con{con.defs.Add(definedType{name, ty})}
+	return Con{con.defs.Copy().Add(definedType{name, ty})}
 }
 
 func (con Con) contains(name string, ty AST.Ty) bool {
-- 
2.43.0


From 36b0254738c7be7c482aa9a85735b3a8dcac4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 50/71] fix: substituting in a list of formulas leaves the list
 as it is

---
 src/AST/form-list.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..14bfa44 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,7 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
-	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
-	}
-	return formulas
+	return Lib.ListMap(formulas, func(f Form) Form { return f.ReplaceMetaByTerm(meta, term) })
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From def0873505201ab4dd49b1ab1c2c9c9bf81f9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 51/71] fix: a metavariable bound twice while a code tree
 answers has its two values unified

---
 src/Unif/substitutions_tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 5a9be9e..2a90cf9 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -89,7 +89,13 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		if !currentMeta.Equals(currentValue) {
 			// Si current_meta a déjà une association dans metas
 			metaGet, index := metasToSubs.Get(currentMeta)
-			if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
+			if HasSubst(treeSubs, currentMeta) {
+				// The unification of a previous value has bound this meta: both values have to be unified
+				treeSubs = AddUnification(currentMeta, currentValue.Copy(), treeSubs.Copy())
+				if treeSubs.Equals(Failure()) {
+					return Failure()
+				}
+			} else if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
 				// On cherche a unifier les deux valeurs
 				treeSubs.Set(currentMeta, currentValue)
 				new_unif := AddUnification(currentValue.Copy(), metaGet.Copy(), treeSubs.Copy())
-- 
2.43.0


From cff10f29a18742c3ca1699acadaf098091b20541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 52/71] fix: a term unifies with itself, and a cycle of
 metavariables has a solved form

---
 src/Unif/substitutions_tree.go | 4 ++++
 src/Unif/substitutions_type.go | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 2a90cf9..bdd3261 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -178,6 +178,10 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
+	// A term unifies with itself
+	if term1.Equals(term2) {
+		return subst
+	}
 	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
 	t1v, _ := subst.Get(term1.ToMeta())
 	t2v, _ := subst.Get(term2.ToMeta())
diff --git a/src/Unif/substitutions_type.go b/src/Unif/substitutions_type.go
index 7c43b11..7b175fa 100644
--- a/src/Unif/substitutions_type.go
+++ b/src/Unif/substitutions_type.go
@@ -275,8 +275,8 @@ func Eliminate(s *Substitutions) {
 		has_changed = false
 
 		// For each element  (key, value) in the given substitution
-		for _, t := range *s {
-			key, value := t.Get()
+		for i := 0; i < len(*s); i++ {
+			key, value := (*s)[i].Get()
 			if OccurCheckValid(key, value) {
 				*s = eliminateInside(key, value, (*s).Copy(), &has_changed)
 			} else {
@@ -304,7 +304,10 @@ func eliminateInside(key AST.Meta, value AST.Term, s Substitutions, has_changed_
 			case AST.Meta:
 
 				if key.Equals(value_2_type) {
-					s_tmp.Set(key_2, value)
+					// A meta is equal to itself: in a cycle of metas, the last link says nothing
+					if !key_2.Equals(value) {
+						s_tmp.Set(key_2, value)
+					}
 					has_changed = true
 				} else {
 					s_tmp.Set(key_2, value_2)
-- 
2.43.0


From e6189fcd2e3e8e52004d7d0aade7c43126567037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 53/71] fix: a polymorphic predicate instantiated with a type
 metavariable has arguments

---
 src/AST/ty-syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index c541f2c..9cc56e9 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -417,7 +417,7 @@ func GetArgsTy(ty Ty) Lib.List[Ty] {
 		return Lib.NewList[Ty]()
 	case TyFunc:
 		switch nty := rty.in.(type) {
-		case TyBound, TyConstr:
+		case TyBound, TyMeta, TyConstr:
 			return Lib.MkListV(rty.in)
 		case TyProd:
 			return nty.args
-- 
2.43.0


From 0ce341efb4cb8616368b16ef23191b8393c88829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 54/71] fix: the type of an equality keeps the arguments of its
 type arguments

---
 src/Engine/syntax-translation.go | 20 ++++++++++++--------
 src/Parser/psyntax.go            |  6 +++++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 404aab9..370e3bf 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -518,14 +518,7 @@ func elaborateDefinedFunctionals(
 		case AST.Fun:
 			ty = lookupInContext(con, term.GetName())
 			for _, ty := range term.GetTyArgs().GetSlice() {
-				switch t := ty.(type) {
-				case AST.TyConstr:
-					ty_args.Append(Parser.MkFunConst(t.Symbol()))
-				case AST.TyBound:
-					ty_args.Append(Parser.MkVar(t.GetName()))
-				default:
-					Glob.Anomaly(elab_label, "Found non-constant type parameter in defined type")
-				}
+				ty_args.Append(typeToParserTerm(ty))
 			}
 		case AST.Var:
 			ty = lookupInContext(con, term.GetName())
@@ -587,3 +580,14 @@ func elaborateDefinedFunctionals(
 
 	return ty_args
 }
+
+func typeToParserTerm(ty AST.Ty) Parser.PTerm {
+	switch t := ty.(type) {
+	case AST.TyConstr:
+		return Parser.MkFun(t.Symbol(), Lib.ListMap(t.Args(), typeToParserTerm).GetSlice())
+	case AST.TyBound:
+		return Parser.MkVar(t.GetName())
+	}
+	Glob.Anomaly(elab_label, "Found non-constant type parameter in defined type")
+	return nil
+}
diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 71b081e..b3435a3 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -205,8 +205,12 @@ func MkVar(name string) PTerm {
 func (PFun) isPTerm() {}
 func (PVar) isPTerm() {}
 
+func MkFun(symbol string, args []PTerm) PTerm {
+	return PFun{symbol, args, Lib.MkNone[PTypeFun]()}
+}
+
 func MkFunConst(symbol string) PTerm {
-	return PFun{symbol, []PTerm{}, Lib.MkNone[PTypeFun]()}
+	return MkFun(symbol, []PTerm{})
 }
 
 func MkDefinedConst(symbol string, definedType PTypeFun) PTerm {
-- 
2.43.0


From 46ac4265dbbedec2df401fd730626f845ec85b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 55/71] fix: the types of quantified variables are type-checked

---
 src/Typing/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 613e9ca..e9e9f47 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -83,7 +83,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			con.addTypedVars(f.GetVarList()),
 			Lib.MkListV(f.GetForm()),
 			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
+			Lib.ListMap(f.GetVarList(), AST.TypedVar.GetTy),
 		)
 
 	case AST.Ex:
@@ -91,7 +91,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			con.addTypedVars(f.GetVarList()),
 			Lib.MkListV(f.GetForm()),
 			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
+			Lib.ListMap(f.GetVarList(), AST.TypedVar.GetTy),
 		)
 	}
 
-- 
2.43.0


From 6c8549b2224ae8bded06a81c3c01061b4e546dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 56/71] fix: a polymorphic symbol without its type arguments is
 an error, not a crash

---
 src/Engine/pretyper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Engine/pretyper.go b/src/Engine/pretyper.go
index 16386a8..3ce6938 100644
--- a/src/Engine/pretyper.go
+++ b/src/Engine/pretyper.go
@@ -191,6 +191,13 @@ func instantiateType(ty Parser.PType, lookupName string, args []Parser.PTerm) Pa
 		return nty.Right()
 
 	case Parser.PTypeQuant:
+		if len(args) < len(nty.Vars()) {
+			Glob.Fatal(
+				elab_label,
+				fmt.Sprintf("%s expects %d type arguments", lookupName, len(nty.Vars())),
+			)
+		}
+
 		type_args := map[string]Parser.PType{}
 		for i, v := range nty.Vars() {
 			type_args[v.Fst] = parserTermToType(args[i])
-- 
2.43.0


From 04a0c489bbba66e6c60def84a7be1fa078e440c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 57/71] fix: a variable that no quantifier binds is an error

---
 src/Engine/syntax-translation.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 370e3bf..e45c333 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -231,11 +231,11 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 					return Lib.MkPair(p.Fst, p.Snd.(Parser.PType))
 				},
 			)
-			new_con, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
+			_, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
 			if !vars.Empty() {
 				form = AST.MakerAll(vars, form)
 			}
-			return new_con, form, b
+			return con, form, b
 
 		case Parser.PQuantEx:
 			if vars.Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) {
@@ -250,11 +250,11 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 					return Lib.MkPair(p.Fst, p.Snd.(Parser.PType))
 				},
 			)
-			new_con, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
+			_, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
 			if !vars.Empty() {
 				form = AST.MakerEx(vars, form)
 			}
-			return new_con, form, b
+			return con, form, b
 		}
 	}
 	Glob.Anomaly(
@@ -329,6 +329,10 @@ func elaborateTerm(con Context, t, source_term Parser.PTerm) (Context, AST.Term,
 
 	switch pterm := t.(type) {
 	case Parser.PVar:
+		if _, bound := lookupInContext(con, pterm.Name()).(Lib.Some[Parser.PType]); !bound {
+			Glob.Fatal(elab_label, fmt.Sprintf(
+				"Variable %s is not bound in %s", pterm.Name(), source_term.ToString()))
+		}
 		return con, AST.MakerVar(pterm.Name()), false
 
 	case Parser.PFun:
-- 
2.43.0


From 9b8950d1a1239e4789311c6fb85f6a943530cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 58/71] fix: the alphabet of TPTP is ASCII, and other bytes end
 the lexing with an error

---
 src/Parser/tptp_lex.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 034c18e..9c8e98a 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"os"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/GoelandProver/Goeland/Glob"
 )
@@ -152,7 +153,7 @@ func (lexer *TPTPLex) notStarSlash() bool {
 // %----Keywords:    fof cnf thf tff include
 func (lexer *TPTPLex) isKeyword() (int, bool) {
 	word := ""
-	for len(lexer.s) > lexer.pos && unicode.IsLetter(lexer.c) {
+	for len(lexer.s) > lexer.pos && isLetter(lexer.c) {
 		word += string(lexer.c)
 		lexer.advance()
 	}
@@ -279,7 +280,7 @@ func (lexer *TPTPLex) isPredicate() (int, bool) {
 		word += string(lexer.c)
 		for len(lexer.s) > lexer.pos+1 {
 			lexer.advance()
-			if unicode.IsLetter(lexer.c) {
+			if isLetter(lexer.c) {
 				word += string(lexer.c)
 			} else {
 				lexer.remove(1)
@@ -427,9 +428,9 @@ func (lexer *TPTPLex) word(yylval *TPTPSymType) int {
 			yylval.str = "$"
 			token = DOLLAR_WORD
 		}
-	} else if unicode.IsUpper(lexer.c) {
+	} else if isUpperAlpha(lexer.c) {
 		token = UPPER_WORD
-	} else if unicode.IsLower(lexer.c) {
+	} else if isLowerAlpha(lexer.c) {
 		token = LOWER_WORD
 	}
 
@@ -453,7 +454,7 @@ func (lexer *TPTPLex) word(yylval *TPTPSymType) int {
 // <alpha_numeric>        ::: (<lower_alpha>|<upper_alpha>|<numeric>|[_])
 func (lexer *TPTPLex) alphaNumeric(yylval *TPTPSymType) {
 	word := ""
-	for len(lexer.s) > lexer.pos && (unicode.IsLetter(lexer.c) || unicode.IsDigit(lexer.c) || lexer.c == '_') {
+	for len(lexer.s) > lexer.pos && (isLetter(lexer.c) || unicode.IsDigit(lexer.c) || lexer.c == '_') {
 		word += string(lexer.c)
 		lexer.advance()
 	}
@@ -774,6 +775,20 @@ func (lexer TPTPLex) isZeroNumeric() bool {
 	return lexer.c == '0'
 }
 
+// <lower_alpha>          ::: [a-z]
+func isLowerAlpha(c rune) bool {
+	return c >= 'a' && c <= 'z'
+}
+
+// <upper_alpha>          ::: [A-Z]
+func isUpperAlpha(c rune) bool {
+	return c >= 'A' && c <= 'Z'
+}
+
+func isLetter(c rune) bool {
+	return isLowerAlpha(c) || isUpperAlpha(c)
+}
+
 // <non_zero_numeric>     ::: [1-9]
 func (lexer TPTPLex) isNonZeroNumeric() bool {
 	return int(lexer.c) >= int('1') && int(lexer.c) <= int('9')
@@ -873,8 +888,9 @@ func (lexer *TPTPLex) manageFailableReturn(lexingMap map[string]int, key string)
 
 	// Removing 0 characters still updates c to the next position
 	// So we have to check that we have at least 1 char.
-	if len(key) > 1 {
-		lexer.remove(len(key) - 1)
+	// The key has one rune for each byte that was read.
+	if read := utf8.RuneCountInString(key); read > 1 {
+		lexer.remove(read - 1)
 	}
 	return FAILURE_TOKEN, false
 }
-- 
2.43.0


From 78ffbf404f4ea73264fbb49b8ed2e0381d460eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 59/71] fix: spaces may follow fof, tff or include

---
 src/Parser/tptp_lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 9c8e98a..e22d750 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -35,6 +35,7 @@ package Parser
 import (
 	"fmt"
 	"os"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -164,10 +165,11 @@ func (lexer *TPTPLex) isKeyword() (int, bool) {
 		return FAILURE_TOKEN, false
 	}
 
-	// We're at '(', so we need to remove 2 to the counter for the next char to be '('
+	// We're after the word, so we need to remove 1 to the counter to be on its last letter
 	lexer.remove(1)
 
-	if !lexer.checkNext('(') {
+	// A keyword is followed by '(', maybe after spaces
+	if !strings.HasPrefix(strings.TrimLeft(lexer.s[lexer.pos:], " \n\r\t"), "(") {
 		lexer.remove(len(word) - 1)
 		return FAILURE_TOKEN, false
 	}
-- 
2.43.0


From e01bab03b2fa71854abc47162ba435fbfb28c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:37 +0000
Subject: [PATCH 60/71] fix: a DMT backtrack on a rewriting without
 substitution passes none to the child

---
 src/Search/child_management.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index e4f6c91..a0eee4e 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -342,6 +342,11 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	// The last formula of getLF is the previous formula choosen among rewritten. So, discard it and add the new one
 	args.st.SetLF(append(args.st.GetLF()[0:len(args.st.GetLF())-1].Copy(), nextForm))
 
+	// As for the first choice, a rewriting without substitution leaves nothing for the child to apply.
+	if nextSaF.GetSaf().GetSubst().Empty() {
+		nextSaF = Core.MakeEmptyIntSubstAndFormAndTerms()
+	}
+
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
 	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
-- 
2.43.0


From 7aaa96439264a29ba8e7128e9adb5af0f0c45ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 61/71] fix: a quoted name is only the plain name, variable or
 number it looks like when its quotes are useless

---
 src/Parser/tptp_lex.go  | 29 +++++++++++++++++++++++++++--
 src/Parser/tptp_parse.y |  2 +-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index e22d750..5beca43 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -369,7 +369,32 @@ func (lexer *TPTPLex) singleQuoted(yylval *TPTPSymType) {
 	if lexer.c != '\'' {
 		lexer.Error("Quoted name started but never ended.")
 	}
-	yylval.str = word
+	yylval.str = quotedName(word)
+}
+
+// The quotes are part of the name unless they are useless: 'cat' and cat are the same symbol, but 'X' is not
+// the variable X, '12' is not the number 12 and '$true' is not the formula $true.
+func quotedName(word string) string {
+	if isLowerWord(word) {
+		return word
+	}
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'").Replace(word) + "'"
+}
+
+func unquotedName(name string) string {
+	if len(name) > 1 && name[0] == '\'' {
+		return strings.NewReplacer("\\\\", "\\", "\\'", "'").Replace(name[1 : len(name)-1])
+	}
+	return name
+}
+
+func isLowerWord(word string) bool {
+	for i, c := range word {
+		if !isLowerAlpha(c) && (i == 0 || (!isUpperAlpha(c) && (c < '0' || c > '9') && c != '_')) {
+			return false
+		}
+	}
+	return len(word) > 0
 }
 
 func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
@@ -389,7 +414,7 @@ func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
 	if lexer.c != '"' {
 		lexer.Error("Distinct object started but never ended.")
 	}
-	yylval.str = word
+	yylval.str = "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(word) + "\""
 }
 
 // %---Space and visible characters upto ~, except ' and \
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 85f0855..2b29078 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -577,7 +577,7 @@ number: INTEGER { $$ = Lib.MkPair($1, MkTypeConst("$int").(PTypeFun)) }
   | REAL        { $$ = Lib.MkPair($1, MkTypeConst("$real").(PTypeFun)) }
   ;
 
-file_name: SINGLE_QUOTED { $$ = $1 }
+file_name: SINGLE_QUOTED { $$ = unquotedName($1) }
   ;
 %%
 
-- 
2.43.0


From 40b13c595a132ca10cbaf18193d2fa14f095fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 62/71] fix: a symbol of the problem is not a Skolem symbol
 because its name contains sko

---
 src/AST/termsDef.go    |  5 +++++
 src/Mods/gs3/proof.go  |  4 +---
 src/Mods/rocq/proof.go | 14 ++++++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/AST/termsDef.go b/src/AST/termsDef.go
index 5492cfd..56008f2 100644
--- a/src/AST/termsDef.go
+++ b/src/AST/termsDef.go
@@ -61,6 +61,11 @@ func (Id) GetMetas() Lib.Set[Meta]     { return Lib.EmptySet[Meta]() }
 func (Id) GetMetaList() Lib.List[Meta] { return Lib.NewList[Meta]() }
 func (i Id) ToString() string          { return printer.StrId(i) }
 
+// The names of the symbols created by Skolemization contain an @: no name of the problem does without being quoted.
+func (i Id) IsSkolem() bool {
+	return strings.HasPrefix(i.name, "skolem@") || strings.HasPrefix(i.name, "skoTy@")
+}
+
 func (i Id) Equals(t any) bool {
 	if typed, ok := t.(Id); ok {
 		return typed.GetIndex() == i.GetIndex()
diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index b7e3d56..40a6e02 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -37,8 +37,6 @@
 package gs3
 
 import (
-	"strings"
-
 	"fmt"
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core"
@@ -274,7 +272,7 @@ func getDepFromTerm(term AST.Term) Lib.List[AST.Term] {
 	}
 
 	if typedFun, ok := term.(AST.Fun); ok {
-		if strings.Contains(typedFun.GetID().GetName(), "sko") {
+		if typedFun.GetID().IsSkolem() {
 			return Lib.MkListV[AST.Term](typedFun)
 		}
 
diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index c5e999a..ce868fb 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -330,7 +330,7 @@ func getRealConstantName(constantsCreated []AST.Term, term AST.Term) string {
 	}
 	if fun, isFun := term.(AST.Fun); isFun {
 		res := ""
-		if isGroundTerm(fun.GetID()) {
+		if !fun.GetID().IsSkolem() {
 			res = fun.GetID().ToString()
 			subterms := make([]string, 0)
 			for _, t := range fun.GetArgs().GetSlice() {
@@ -400,5 +400,15 @@ func hasBeenCreated(constantsCreated []AST.Term, term AST.Term) bool {
 }
 
 func isGroundTerm(term AST.Term) bool {
-	return !strings.Contains(term.ToString(), "sko")
+	if fun, isFun := term.(AST.Fun); isFun {
+		if fun.GetID().IsSkolem() {
+			return false
+		}
+		for _, t := range fun.GetArgs().GetSlice() {
+			if !isGroundTerm(t) {
+				return false
+			}
+		}
+	}
+	return true
 }
-- 
2.43.0


From 27dfb81ee28f89dceaded6bf84fe1291a49a74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 63/71] fix: the constants of TPTP proofs are new, and names
 that are not lower words are printed with quotes

---
 src/AST/maker.go        |  7 +++++++
 src/Mods/tptp/output.go | 15 ++++++++++++---
 src/Mods/tptp/proof.go  |  9 +++++++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index f4c7c92..667ed5a 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -104,6 +104,13 @@ func MakerNewId(s string) Id {
 	return newId(s)
 }
 
+func IsKnownId(s string) bool {
+	lock_term.Lock()
+	defer lock_term.Unlock()
+	_, ok := idTable[s]
+	return ok
+}
+
 /* lock_term must be held */
 func newId(s string) Id {
 	idTable[s] = cpt_term
diff --git a/src/Mods/tptp/output.go b/src/Mods/tptp/output.go
index 1085ba4..c8ec5cb 100644
--- a/src/Mods/tptp/output.go
+++ b/src/Mods/tptp/output.go
@@ -38,6 +38,7 @@ package tptp
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
@@ -91,15 +92,23 @@ func tptpPrinterConnectives() AST.PrinterConnective {
 }
 
 func tptpPrinterAction() AST.PrinterAction {
-	tptp_action := AST.MkPrinterAction(
+	return AST.MkPrinterAction(
 		AST.PrinterIdentity,
-		func(i AST.Id) string { return i.GetName() },
+		func(i AST.Id) string {
+			if strings.Contains(i.GetName(), "@") && !isQuoted(i.GetName()) {
+				return "'" + i.GetName() + "'"
+			}
+			return i.GetName()
+		},
 		AST.PrinterIdentity2[int],
 		func(metaName string, index int) string { return fmt.Sprintf("%s_%d", metaName, index) },
 		AST.PrinterIdentity,
 		AST.PrinterIdentityPair[AST.Ty],
 	)
-	return tptp_action.Compose(AST.SanitizerAction(AST.DefaultPrinterConnectives(), []string{"@"}))
+}
+
+func isQuoted(name string) bool {
+	return strings.HasPrefix(name, "'") || strings.HasPrefix(name, "\"")
 }
 
 var MakeTptpProof = func(proof *gs3.GS3Sequent, meta Lib.List[AST.Meta]) string {
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index d091fcb..7723f9d 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -56,6 +56,7 @@ var mutex_proof_step sync.Mutex
 var id_proof_step = 0
 var mutex_constant sync.Mutex
 var constant_created = make([]AST.Term, 0)
+var cpt_constant = 0
 var prefix_step = "f"
 var prefix_axiom_cut = "ac"
 var prefix_const = "sko_"
@@ -703,8 +704,12 @@ func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequen
 
 func createNewConstant() AST.Term {
 	mutex_constant.Lock()
-	new_id := len(constant_created)
-	new_term_name := fmt.Sprintf("%s%d", prefix_const, new_id)
+	new_term_name := fmt.Sprintf("%s%d", prefix_const, cpt_constant)
+	for AST.IsKnownId(new_term_name) {
+		cpt_constant++
+		new_term_name = fmt.Sprintf("%s%d", prefix_const, cpt_constant)
+	}
+	cpt_constant++
 	new_term := AST.MakerConst(AST.MakerNewId(new_term_name))
 	constant_created = append(constant_created, new_term)
 	mutex_constant.Unlock()
-- 
2.43.0


From 0cc48f3d35b5ae793fdd8aa9e53858b06a1c4a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 64/71] fix: Rocq proofs give every symbol an identifier that
 Rocq accepts and nothing else uses

---
 src/Mods/rocq/output.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/Mods/rocq/output.go b/src/Mods/rocq/output.go
index 1b75f8f..18fd538 100644
--- a/src/Mods/rocq/output.go
+++ b/src/Mods/rocq/output.go
@@ -38,7 +38,9 @@ package rocq
 
 import (
 	"fmt"
+	"slices"
 	"strings"
+	"unicode"
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
@@ -114,7 +116,12 @@ func RocqPrinterAction() AST.PrinterAction {
 	}
 	rocq_action := AST.MkPrinterAction(
 		AST.PrinterIdentity,
-		func(i AST.Id) string { return i.GetName() },
+		func(i AST.Id) string {
+			if i.Equals(AST.Id_eq) {
+				return i.GetName()
+			}
+			return rocqName(i.GetName())
+		},
 		AST.PrinterIdentity2[int],
 		func(metaName string, index int) string { return fmt.Sprintf("%s_%d", metaName, index) },
 		sanitize_type,
@@ -126,6 +133,36 @@ func RocqPrinterAction() AST.PrinterAction {
 	return rocq_action.Compose(AST.RemoveSuperfluousParenthesesAction(connectives))
 }
 
+// The words that cannot be the name of a parameter.
+var rocqKeywords = []string{
+	"as", "at", "by", "cofix", "else", "end", "exists", "exists2", "fix", "for", "forall", "fun",
+	"if", "in", "is", "let", "match", "mod", "return", "then", "using", "where", "with",
+}
+
+// Gives a Rocq identifier to each name. As no lower word of TPTP contains a quote, distinct names
+// keep distinct identifiers.
+func rocqName(name string) string {
+	plain := true
+	for i, c := range name {
+		plain = plain && (c == '_' || c == '@' || unicode.IsLetter(c) || (i > 0 && unicode.IsDigit(c)))
+	}
+	if !plain {
+		res := "q'"
+		for _, c := range name {
+			if c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) {
+				res += string(c)
+			} else {
+				res += fmt.Sprintf("'%x'", c)
+			}
+		}
+		return res
+	}
+	if slices.Contains(rocqKeywords, name) || strings.HasPrefix(name, "goeland_") {
+		return name + "'"
+	}
+	return strings.ReplaceAll(name, "@", "'")
+}
+
 var MakeRocqProof = func(proof *gs3.GS3Sequent, meta Lib.List[AST.Meta]) string {
 	contextString := makeContextIfNeeded(proof.GetTargetForm(), meta)
 	proofString := makeRocqProofFromGS3(proof)
-- 
2.43.0


From 5ca729930ace2b2a2d8d5d5b17df534fe44ac384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:47 +0000
Subject: [PATCH 65/71] fix: the name of the theorem is an identifier whatever
 the name of the problem's file

---
 src/Glob/helper.go     | 10 ++++++++++
 src/Mods/rocq/proof.go |  5 +----
 src/Mods/tptp/proof.go |  3 +--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Glob/helper.go b/src/Glob/helper.go
index 4666b62..5b247ca 100644
--- a/src/Glob/helper.go
+++ b/src/Glob/helper.go
@@ -231,6 +231,16 @@ func GetProblemName() string {
 	return problem_name
 }
 
+// The problem's name where only letters, digits and underscores may appear
+func GetProblemIdentifier() string {
+	return strings.Map(func(c rune) rune {
+		if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') {
+			return c
+		}
+		return '_'
+	}, problem_name)
+}
+
 func GetCoreLimit() int {
 	return core_limit
 }
diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index ce868fb..a8b92b7 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -255,10 +255,7 @@ func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
 
 // Prints the theorem's name & properly formats the first formula.
 func makeTheorem(axioms Lib.List[AST.Form], conjecture AST.Form) string {
-	problemName := Glob.GetProblemName()
-	for _, s := range []string{".", "=", "+", "-"} {
-		problemName = strings.ReplaceAll(problemName, s, "_")
-	}
+	problemName := Glob.GetProblemIdentifier()
 	axiomsWithConj := Lib.ListCpy(axioms)
 	axiomsWithConj.Append(AST.MakerNot(AST.MakerNot(conjecture)))
 	formattedProblem := makeImpChain(axiomsWithConj)
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 7723f9d..be5e6f2 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -43,7 +43,6 @@ package tptp
 import (
 	"fmt"
 	"strconv"
-	"strings"
 	"sync"
 
 	"github.com/GoelandProver/Goeland/AST"
@@ -540,7 +539,7 @@ func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
 // Prints the theorem's name & properly formats the first formula.
 func makeTheorem(axioms Lib.List[AST.Form], conjecture AST.Form) string {
 	var resulting_string string
-	problemName := strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(Glob.GetProblemName(), ".", "_"), "=", "_"), "+", "_")
+	problemName := Glob.GetProblemIdentifier()
 
 	for _, ax := range axioms.GetSlice() {
 		resulting_string = resulting_string + "fof(" + fmt.Sprintf("ax%d", ax.GetIndex()) + ", axiom, " +
-- 
2.43.0


From 0f243a431d79ba384b67700b28dabd3606ba7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 66/71] fix: Rocq proofs whose goal is itself a double negation
 elimination

---
 src/Mods/rocq/proof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index a8b92b7..a7a9ea6 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -153,7 +153,7 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], constantsCre
 
 	// Delta rules
 	case gs3.NALL:
-		resultingString, childrenHypotheses, constantsCreated = deltaStep(proof, hypotheses, actualTarget, "apply %s. intros %s. apply NNPP. intros %s. ", constantsCreated)
+		resultingString, childrenHypotheses, constantsCreated = deltaStep(proof, hypotheses, actualTarget, "apply %s. intros %s. refine (NNPP _ _). intros %s. ", constantsCreated)
 	case gs3.EX:
 		resultingString, childrenHypotheses, constantsCreated = deltaStep(proof, hypotheses, actualTarget, "elim %s. intros %s. intros %s. ", constantsCreated)
 
@@ -161,7 +161,7 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], constantsCre
 	case gs3.ALL:
 		resultingString, childrenHypotheses = gammaStep(proof, hypotheses, actualTarget, "generalize (%s %s). intros %s. ", constantsCreated)
 	case gs3.NEX:
-		resultingString, childrenHypotheses = gammaStep(proof, hypotheses, actualTarget, "apply %s. exists %s. apply NNPP. intros %s. ", constantsCreated)
+		resultingString, childrenHypotheses = gammaStep(proof, hypotheses, actualTarget, "apply %s. exists %s. refine (NNPP _ _). intros %s. ", constantsCreated)
 
 	// Weakening rule
 	case gs3.W:
-- 
2.43.0


From a1c056fbf573b00ba0042a50a2d44251302184fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 67/71] fix: numbers may have a plus sign

---
 src/Parser/tptp_lex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 5beca43..fc5a208 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -237,6 +237,10 @@ func (lexer *TPTPLex) isOperator() (int, bool) {
 		}
 	case '?':
 		quantifiersCounter += 1
+	case '+':
+		if lexer.pos < len(lexer.s) && unicode.IsDigit(rune(lexer.s[lexer.pos])) { // signed number
+			return FAILURE_TOKEN, false
+		}
 	case '<':
 		if lexer.checkAdvance('=') { // <=> or <=
 			word += "="
-- 
2.43.0


From 3c3a590e96b776b85b57b2f17ddd581dd635efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 68/71] fix: the printer of the Rocq proofs is not kept for the
 outputs printed after them

---
 src/Mods/rocq/output.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Mods/rocq/output.go b/src/Mods/rocq/output.go
index 18fd538..b432393 100644
--- a/src/Mods/rocq/output.go
+++ b/src/Mods/rocq/output.go
@@ -65,6 +65,7 @@ func MakeRocqOutput(prf []Search.ProofStruct, meta Lib.List[AST.Meta]) string {
 	// Setup Rocq printer
 	connectives := RocqPrinterConnectives()
 	printer := AST.Printer{PrinterAction: RocqPrinterAction(), PrinterConnective: &connectives}
+	defer AST.SetPrinter(AST.GetPrinter())
 	AST.SetPrinter(printer)
 
 	// Transform tableaux's proof in GS3 proof
-- 
2.43.0


From 1f4f4133f4356c3c2062c1ce1d20ac59446c6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 69/71] fix: GS3 proofs state both members of a negated
 equivalence even when they are the same formula

---
 src/Mods/gs3/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 40a6e02..26312e7 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -367,7 +367,7 @@ func (gs *GS3Proof) postTreatment(proofStep Search.ProofStruct, rule Rule) []Lib
 	var forms []Lib.List[AST.Form]
 	for i, fs := range proofStep.GetResultFormulas() {
 		forms = append(forms, fs.GetForms())
-		if (rule == NOR || rule == NIMP || rule == AND || rule == EQU) && forms[i].Len() == 1 {
+		if (rule == NOR || rule == NIMP || rule == AND || rule == EQU || rule == NEQU) && forms[i].Len() == 1 {
 			forms[i].Append(forms[i].At(0).Copy())
 		}
 	}
-- 
2.43.0


From 47e4d802d1b54822a6641f26a8a45789d7c581a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 70/71] fix: LambdaPi output of a quantifier that binds nothing

---
 src/Mods/lambdapi/proof.go | 10 +++++++++-
 src/Mods/lambdapi/utils.go |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Mods/lambdapi/proof.go b/src/Mods/lambdapi/proof.go
index 9b9dcf0..16c62e6 100644
--- a/src/Mods/lambdapi/proof.go
+++ b/src/Mods/lambdapi/proof.go
@@ -176,7 +176,7 @@ func allRulesQuantUniv(
 	}
 	result = fmt.Sprintf(result, strings.Join(varStrs, ", "+quant+" "))
 
-	result += "(" + termGen.ToString() + ")\n"
+	result += "(" + instantiationString(termGen) + ")\n"
 
 	result += getRecursionUnivStr(nexts, children)
 
@@ -254,6 +254,14 @@ func getRecursionExistStr(nexts []*gs3.GS3Sequent, children []Lib.List[AST.Form]
 	return result
 }
 
+// The term that instantiates a quantifier. A quantifier that binds nothing has no such term, any element will do.
+func instantiationString(termGen AST.Term) string {
+	if termGen == nil {
+		return mapDefault("select $i")
+	}
+	return termGen.ToString()
+}
+
 func alphaNotNot(proof *gs3.GS3Sequent) string {
 	composingForms := proof.GetTargetForm().GetChildFormulas().At(0).GetChildFormulas()
 	return allRules("GS3nnot", proof.GetTargetForm(), composingForms, proof.Children(), proof.GetResultFormulasOfChildren())
diff --git a/src/Mods/lambdapi/utils.go b/src/Mods/lambdapi/utils.go
index 5e6421c..3d3aeff 100644
--- a/src/Mods/lambdapi/utils.go
+++ b/src/Mods/lambdapi/utils.go
@@ -63,6 +63,10 @@ func toLambdaString(element Glob.Basic, str string) string {
 }
 
 func toLambdaIntroString(element Glob.Basic, typeStr string) string {
+	if element == nil {
+		// A quantifier that binds nothing introduces a variable that nothing mentions.
+		return fmt.Sprintf("λ (v%v : τ (%s))", getIncreasedCounter(), mapDefault("$i"))
+	}
 	return fmt.Sprintf("λ (%s : τ (%s))", addToContext(element), mapDefault(typeStr))
 }
 
-- 
2.43.0


From 3540ada054a6b1fd0045886bd801ffea77fcbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 71/71] fix: equality reasoning and merged substitutions take
 the type arguments into account

The terms of merged substitutions were unified without their type arguments but read with them, which made the
merge fail. Equality reasoning ignored the types of polymorphic predicates and could not rewrite under a symbol
that has type arguments.
---
 src/Mods/equality/bse/equality.go              |  2 +-
 src/Mods/equality/bse/equality_problem_list.go | 13 +++++++++++--
 src/Mods/equality/bse/equality_types.go        |  4 ++--
 src/Unif/matching_substitutions.go             |  8 +++++++-
 src/Unif/parsing.go                            |  5 +++++
 src/Unif/substitutions_tree.go                 |  4 ++--
 6 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/Mods/equality/bse/equality.go b/src/Mods/equality/bse/equality.go
index d0c1b2f..d7b35fc 100644
--- a/src/Mods/equality/bse/equality.go
+++ b/src/Mods/equality/bse/equality.go
@@ -73,7 +73,7 @@ func TryEquality(atomics_for_dmt Core.FormAndTermsList, st Search.State, new_ato
 			for _, substs := range subst_eq {
 				local_list := Lib.NewList[Unif.MixedSubstitution]()
 				for _, subst := range substs {
-					local_list.Append(Unif.MkMixedFromSubst(subst))
+					local_list.Append(Unif.MkMixedFromUnif(subst))
 				}
 				send_to_proof_search.Append(local_list)
 			}
diff --git a/src/Mods/equality/bse/equality_problem_list.go b/src/Mods/equality/bse/equality_problem_list.go
index 30afb5b..9618231 100644
--- a/src/Mods/equality/bse/equality_problem_list.go
+++ b/src/Mods/equality/bse/equality_problem_list.go
@@ -191,11 +191,20 @@ func buildEqualityProblemMultiListFromNEQ(neq Inequalities, eq Equalities) Equal
 /* Build an equality problem list from a predicat and its negation */
 func buildEqualityProblemListFrom2Pred(p1 AST.Pred, p2 AST.Pred, eq Equalities) EqualityProblemList {
 	res := makeEmptyEqualityProblemList()
+	// The instances of a polymorphic predicate are complementary only when their types are the same
+	for i := range p1.GetTyArgs().GetSlice() {
+		res = append(res, makeEqualityProblem(
+			eq.copy(),
+			AST.TyToTerm(p1.GetTyArgs().At(i)),
+			AST.TyToTerm(p2.GetTyArgs().At(i)),
+			makeEmptyConstraintStruct()),
+		)
+	}
 	for i := range p1.GetArgs().GetSlice() {
 		res = append(res, makeEqualityProblem(
 			eq.copy(),
-			p1.GetArgs().At(i).Copy(),
-			p2.GetArgs().At(i).Copy(),
+			Unif.TypesToArguments(p1.GetArgs().At(i)),
+			Unif.TypesToArguments(p2.GetArgs().At(i)),
 			makeEmptyConstraintStruct()),
 		)
 	}
diff --git a/src/Mods/equality/bse/equality_types.go b/src/Mods/equality/bse/equality_types.go
index 482e272..f1133fb 100644
--- a/src/Mods/equality/bse/equality_types.go
+++ b/src/Mods/equality/bse/equality_types.go
@@ -143,7 +143,7 @@ func retrieveEqualities(dt Unif.DataStructure) Equalities {
 		if ok_t2 == -1 {
 			Glob.Anomaly("RI", "Meta_eq_2 not found in map")
 		}
-		res = append(res, eqStruct.MakeTermPair(eq1_term, eq2_term))
+		res = append(res, eqStruct.MakeTermPair(Unif.TypesToArguments(eq1_term), Unif.TypesToArguments(eq2_term)))
 	}
 	return res
 }
@@ -174,7 +174,7 @@ func retrieveInequalities(dt Unif.DataStructure) Inequalities {
 		if ok_t2 == -1 {
 			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
 		}
-		res = append(res, eqStruct.MakeTermPair(neq1_term, neq2_term))
+		res = append(res, eqStruct.MakeTermPair(Unif.TypesToArguments(neq1_term), Unif.TypesToArguments(neq2_term)))
 	}
 	return res
 }
diff --git a/src/Unif/matching_substitutions.go b/src/Unif/matching_substitutions.go
index d879ae1..eed7197 100644
--- a/src/Unif/matching_substitutions.go
+++ b/src/Unif/matching_substitutions.go
@@ -129,6 +129,11 @@ func MkMixedFromSubst(subst Substitution) MixedSubstitution {
 	return MixedSubstitution{Lib.MkRight[TySubstitution, Substitution](subst)}
 }
 
+/* Makes a mixed substitution of the result of a unification of terms whose type arguments are arguments as the others. */
+func MkMixedFromUnif(subst Substitution) MixedSubstitution {
+	return translateFromSubst(subst)
+}
+
 func MkMixedFromTy(subst TySubstitution) MixedSubstitution {
 	return MixedSubstitution{Lib.MkLeft[TySubstitution, Substitution](subst)}
 }
@@ -293,7 +298,8 @@ func translateToSubst(subst MixedSubstitution) Substitution {
 			AST.TyToTerm(s.Val.v),
 		)
 	case Lib.Right[TySubstitution, Substitution]:
-		return s.Val
+		// Unification works on terms whose type arguments are arguments as the others.
+		return MakeSubstitution(s.Val.k, TypesToArguments(s.Val.v))
 	}
 
 	Glob.Anomaly("unification internals", "Found neither a type substitution nor a substitution")
diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index 52e6d8e..5ed470f 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -105,6 +105,11 @@ func MakerTermForm(t AST.Term) TermForm {
 	return makeTermForm(AST.MakerIndexFormula(), t.Copy())
 }
 
+/* Unification works on terms whose type arguments are arguments as the others. */
+func TypesToArguments(t AST.Term) AST.Term {
+	return MakerTermForm(t).GetTerm()
+}
+
 func makeTermForm(i int, t AST.Term) TermForm {
 	return TermForm{i, t.Copy()}
 }
diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index bdd3261..250a413 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -247,11 +247,11 @@ func tryUnification(term1, term2 AST.Term, meta Substitutions) []MatchingSubstit
 		}),
 	)
 	aux := makeMachine()
-	aux.terms = Lib.MkListV(term2)
+	aux.terms = Lib.MkListV(TypesToArguments(term2))
 	aux.meta = meta
 
 	// add begin at the start and end at the end !
-	tree := makeBranch(ParseTerm(term1.Copy()))
+	tree := makeBranch(ParseTerm(TypesToArguments(term1)))
 	res := aux.unifyAux(*tree)
 	return res
 }
-- 
2.43.0

