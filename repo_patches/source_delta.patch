From ed95391056df4fb88b84deb7cbff5e690dd5ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 01/72] fix: pass ends like any other statement

An alternative 'pass' of a oneof block, or a pass in a parallel block, went on
with the next statement in program order, which is another alternative.
---
 modelchecker/thread.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 6ab6506..4f6edda 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -586,8 +586,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	if stmt.PyStmt != nil {
 		if stmt.PyStmt.GetCode() == "pass" {
 			t.Process.Enable()
-			t.currentFrame().pc = t.FindNextProgramCounter()
-			return nil, false
+			return t.executeEndOfStatement()
 		}
 		vars := t.Process.GetAllVariablesNocopy()
 		symCtx := t.Process.createSymmetryContext()
-- 
2.43.0


From a3f02c50d1fcff74c889e690924c961160afd1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 02/72] fix: tell parallel blocks apart between their
 statements

The program counter is cleared between the statements of a parallel block, so
two states within different parallel blocks were merged when they had executed
the same statement numbers.
---
 modelchecker/thread.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 4f6edda..2f3f21d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -141,6 +141,9 @@ type Scope struct {
 	// On parallel execution, skipstmts contains the list of statements to skip
 	// as it is already executed.
 	skipstmts []int
+	// parallelBlock is the path of the block when its flow is parallel. The program
+	// counter is cleared between the statements of a parallel block.
+	parallelBlock string
 
 	loopVars []string
 	// loopRange contains the range of values for the loop variables (probably a tuple when multiple loopVars).
@@ -165,6 +168,8 @@ func (s *Scope) Clone(refs map[starlark.Value]starlark.Value, permutations map[*
 		flow:      s.flow,
 		skipstmts: slices.Clone(s.skipstmts),
 		loopVars:  slices.Clone(s.loopVars),
+
+		parallelBlock: s.parallelBlock,
 	}
 	if s.parent == nil {
 		newScope.vars = CloneDict(s.vars, refs, permutations, alt)
@@ -207,6 +212,7 @@ func (s *Scope) Hash() hash.Hash {
 	h.Write(vars)
 	h.Write([]byte(fmt.Sprintln(sortedCopy(s.skipstmts))))
 	h.Write([]byte(fmt.Sprintln(s.loopRange)))
+	h.Write([]byte(s.parallelBlock))
 	return h
 }
 
@@ -559,6 +565,7 @@ func (t *Thread) executeBlock() []*Process {
 		}
 		return forks
 	case ast.Flow_FLOW_PARALLEL:
+		newScope.parallelBlock = t.currentPc()
 		forks := make([]*Process, len(b.Stmts))
 		for i := range b.Stmts {
 			forks[i] = t.Process.Fork()
-- 
2.43.0


From 9b9969ef6832059093a78d2b90f077894391aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 03/72] fix: leave the scope of an any statement on break and
 continue

break and continue within 'any x in xs:' popped one scope too few, so the loop
going on (or the code after it) ran in the scope of the any statement.
---
 modelchecker/thread.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 2f3f21d..1bb30eb 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -779,6 +779,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		for !(strings.HasSuffix(currentFrame.pc, ".ForStmt") || strings.HasSuffix(currentFrame.pc, ".WhileStmt")) {
 			currentFrame.pc = RemoveLastBlock(currentFrame.pc)
 			currentFrame.scope = currentFrame.scope.parent
+			t.exitAnyStmt()
 		}
 		currentFrame.scope = currentFrame.scope.parent
 		currentFrame.pc = RemoveLastLoop(currentFrame.pc)
@@ -791,6 +792,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				break
 			}
 			currentFrame.scope = currentFrame.scope.parent
+			t.exitAnyStmt()
 		}
 		currentFrame.pc = currentFrame.pc + ".Block.$"
 		return nil, false
@@ -1178,6 +1180,7 @@ func removeElement[T any](slice []T, index int) []T {
 func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	enabled := t.Process.Enabled
 	currentFrame := t.currentFrame()
+	t.exitAnyStmt()
 	switch currentFrame.scope.flow {
 	case ast.Flow_FLOW_ATOMIC:
 		currentFrame.pc = t.FindNextProgramCounter()
@@ -1222,6 +1225,16 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	}
 }
 
+// exitAnyStmt leaves the scope of an any statement when its block has ended. Like
+// a block, the statement then ends according to the flow of the enclosing scope.
+func (t *Thread) exitAnyStmt() {
+	frame := t.currentFrame()
+	if strings.HasSuffix(frame.pc, ".AnyStmt") {
+		frame.pc = RemoveLastSegment(frame.pc, ".AnyStmt")
+		frame.scope = frame.scope.parent
+	}
+}
+
 func (t *Thread) executeEndOfBlock() bool {
 	frame := t.currentFrame()
 	if frame == nil {
@@ -1373,10 +1386,6 @@ func (t *Thread) FindNextProgramCounter() string {
 	case *ast.Statement:
 		path, _ := GetNextFieldPath(t.currentFileAst(), frame.pc)
 		return path
-	case *ast.AnyStmt:
-		path, _ := GetNextFieldPath(t.currentFileAst(), frame.pc)
-		frame.scope = frame.scope.parent
-		return path
 	case *ast.ForStmt:
 		// ForStmt is in the same instruction counter, only the iteration variable changes.
 		return frame.pc
-- 
2.43.0


From 443b1f29be4a42627f1584530d40058700a45eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 04/72] fix: alternatives of a choice keep the progress of the
 step

oneof, any and parallel forks forgot that the step had executed a simple
statement before the choice, so an action was disabled when the alternative
itself executed none.
---
 modelchecker/thread.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 1bb30eb..12453a4 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -544,6 +544,15 @@ func (t *Thread) executeInvariant() {
 	t.currentFrame().pc = t.currentFrame().pc + ".Block"
 }
 
+// forkAlternative forks the process for one alternative of a choice made within a
+// step. What the step executed before the choice has enabled every alternative.
+func (t *Thread) forkAlternative() *Process {
+	fork := t.Process.Fork()
+	fork.Enabled = t.Process.Enabled
+	fork.ThreadProgress = t.Process.ThreadProgress
+	return fork
+}
+
 func (t *Thread) executeBlock() []*Process {
 	newScope := t.InsertNewScope()
 	protobuf := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
@@ -559,7 +568,7 @@ func (t *Thread) executeBlock() []*Process {
 	case ast.Flow_FLOW_ONEOF:
 		forks := make([]*Process, len(b.Stmts))
 		for i := range b.Stmts {
-			forks[i] = t.Process.Fork()
+			forks[i] = t.forkAlternative()
 			forks[i].Name = fmt.Sprintf("Stmt:%d", i)
 			forks[i].currentThread().currentFrame().pc = fmt.Sprintf("%s.Stmts[%d]", t.currentPc(), i)
 		}
@@ -568,7 +577,7 @@ func (t *Thread) executeBlock() []*Process {
 		newScope.parallelBlock = t.currentPc()
 		forks := make([]*Process, len(b.Stmts))
 		for i := range b.Stmts {
-			forks[i] = t.Process.Fork()
+			forks[i] = t.forkAlternative()
 			forks[i].Name = fmt.Sprintf("Stmt:%d", i)
 			forks[i].currentThread().currentFrame().pc = fmt.Sprintf("%s.Stmts[%d]", t.currentPc(), i)
 			forks[i].currentThread().currentFrame().scope.skipstmts = append(forks[i].currentThread().currentFrame().scope.skipstmts, i)
@@ -685,7 +694,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.Process.Fork()
+			fork := t.forkAlternative()
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
 			if r, ok := x.(*lib.Role); ok {
@@ -697,6 +706,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				}
 			}
 			if stmt.AnyStmt.Block == nil {
+				fork.Enabled = true
 				fork.updateVariable(stmt.AnyStmt.LoopVars[0], x)
 			} else {
 				fork.currentThread().currentFrame().scope.vars[stmt.AnyStmt.LoopVars[0]] = x
@@ -1124,7 +1134,7 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// should take only 1 second. Technically max time taken for each iteration.
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
-		fork := t.Process.Fork()
+		fork := t.forkAlternative()
 		if r, ok := x.(*lib.Role); ok {
 			for _, role := range fork.Roles {
 				if r.RefString() == role.RefString() {
-- 
2.43.0


From 257396ff228371aadeda636b70d2a3bd5ca4f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 05/72] fix: do not merge unfinished steps with different
 progress

Two paths within a step can reach the same intermediate state where one has
enabled the action and the other has not; merging them lost transitions,
depending on which came first.
---
 modelchecker/processor.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index cf59137..9b9698c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2006,10 +2006,11 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 				// Disabled path: a require failed or the body was a no-op.
 				continue
 			}
+			progress := stepProgress(n.Process, yield)
 			if n.ThreadProgress {
 				n.Enable()
 			}
-			h := n.HashCode()
+			h := n.HashCode() + progress
 			if seenIntermediate[h] {
 				continue
 			}
@@ -2308,6 +2309,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if len(forks) == 0 && !node.Enabled && !node.ThreadProgress {
 		return false, false
 	}
+	progress := stepProgress(node.Process, yield)
 	if node.ThreadProgress {
 		node.Enable()
 	}
@@ -2366,7 +2368,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		}
 	}
 
-	other, found, canonicalHash := p.findVisitedSymmetric(node)
+	other, found, canonicalHash := p.findVisitedWithProgress(node, progress)
 	if p.experimentalNoGraph {
 		// No-graph mode: visited stores hashes only (values are nil). Skip
 		// Attach (no graph edges) and skip the Enabled-vs-existing logic
@@ -2462,6 +2464,14 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	return false, false
 }
 
+// stepProgress identifies the progress of an unfinished step.
+func stepProgress(process *Process, yield bool) string {
+	if yield {
+		return ""
+	}
+	return fmt.Sprintf("|enabled=%t|progress=%t", process.Enabled, process.ThreadProgress)
+}
+
 func (p *Processor) crashProcess(node *Node) *Node {
 	// For each thread, iterate over the stack frames from the deepest to the top.
 	// find all the roles that present in the nested layers of the stack frames, but not at the top in each thread.
@@ -2625,6 +2635,12 @@ func (p *Process) minHashCode(hashes []string) string {
 // findVisitedSymmetric looks up a node in the visited map by trying all symmetry
 // permutation hashes. Returns the matching node and true if found, nil and false otherwise.
 func (p *Processor) findVisitedSymmetric(node *Node) (*Node, bool, string) {
+	return p.findVisitedWithProgress(node, "")
+}
+
+// findVisitedWithProgress looks up a node in the middle of a step. What the step still
+// does depends on whether it has been enabled so far, so that is part of its identity.
+func (p *Processor) findVisitedWithProgress(node *Node, progress string) (*Node, bool, string) {
 	// Skip symmetry reduction in simulation mode (we only check one path
 	// anyway) or when explicitly disabled. Disabling keeps every persisted
 	// state concrete — no canonical renaming of symmetric values/roles —
@@ -2633,12 +2649,12 @@ func (p *Processor) findVisitedSymmetric(node *Node) (*Node, bool, string) {
 	// renamed destination state would not match them. Exact-duplicate
 	// states still dedup via the plain hash.
 	if p.simulation || p.disableSymmetryReduction {
-		hash := node.HashCode()
+		hash := node.HashCode() + progress
 		other, ok := p.visited[hash]
 		return other, ok, hash
 	}
 	hashes := node.getSymmetryTranslations()
-	minHash := node.minHashCode(hashes)
+	minHash := node.minHashCode(hashes) + progress
 	other, ok := p.visited[minHash]
 	return other, ok, minHash
 }
-- 
2.43.0


From 40fc2244f0c6e3342550571ee6e743b4673b392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 06/72] fix: control flow statements within oneof and parallel
 blocks

if, for, while, any and nested blocks as an alternative of oneof, or a statement
of parallel, either crashed with 'Unknown protobuf type' or ended the enclosing
block after the first statement.
---
 modelchecker/protopath.go |  3 ++-
 modelchecker/thread.go    | 46 ++++++++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/modelchecker/protopath.go b/modelchecker/protopath.go
index a282779..a7978bc 100644
--- a/modelchecker/protopath.go
+++ b/modelchecker/protopath.go
@@ -225,6 +225,7 @@ func replaceLastStmts(input, replacement string) string {
 	}
 
 	lastMatch := matches[len(matches)-1]
-	result := input[:lastMatch[0]] + replacement + input[lastMatch[1]:]
+	// Drop everything below the statement (for example .IfStmt.Branches[0]).
+	result := input[:lastMatch[0]] + replacement
 	return result
 }
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 12453a4..9afbc91 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -476,7 +476,7 @@ func (t *Thread) Execute() ([]*Process, bool) {
 	defer t.Process.propagateEnabled()
 	for t.Stack.Len() > 0 {
 		for t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$") {
-			yield = t.executeEndOfBlock()
+			forks, yield = t.closeBlock()
 			if yield {
 				if !hasNonEndOfBlockStmts && t.Process.GetThreadsCount() < initialThreads && t.Process.Parent != nil && t.Process.Parent.Enabled {
 					t.Process.Fairness = t.Fairness
@@ -484,6 +484,9 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				}
 				return forks, yield
 			}
+			if len(forks) > 0 {
+				return forks, false
+			}
 		}
 		hasNonEndOfBlockStmts = true
 		frame := t.currentFrame()
@@ -527,7 +530,9 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				return forks, true
 			}
 			for t.Stack.Len() > 0 && (t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$")) {
-				t.executeEndOfBlock()
+				if closing, _ := t.closeBlock(); len(closing) > 0 {
+					return closing, true
+				}
 			}
 
 			return forks, true
@@ -730,7 +735,22 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 			if stmt.AnyStmt.Block != nil {
 				fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.AnyStmt.Block", currentFrame.pc)
 			} else {
-				fork.currentThread().currentFrame().pc = t.FindNextProgramCounter()
+				forkThread := fork.currentThread()
+				switch forkThread.currentFrame().scope.flow {
+				case ast.Flow_FLOW_ONEOF, ast.Flow_FLOW_PARALLEL:
+					// The next statement in program order is another alternative of the
+					// enclosing block, so the statement has to end like any other one.
+					if alternatives, _ := forkThread.executeEndOfStatement(); len(alternatives) > 0 {
+						for _, alternative := range alternatives {
+							alternative.ChoiceFairness = fork.ChoiceFairness
+							alternative.Enabled = fork.Enabled
+						}
+						forks = append(forks, alternatives...)
+						continue
+					}
+				default:
+					forkThread.currentFrame().pc = t.FindNextProgramCounter()
+				}
 			}
 			forks = append(forks, fork)
 		}
@@ -1246,9 +1266,16 @@ func (t *Thread) exitAnyStmt() {
 }
 
 func (t *Thread) executeEndOfBlock() bool {
+	_, yield := t.closeBlock()
+	return yield
+}
+
+// closeBlock ends the current block and every enclosing block that ends with it.
+// When an enclosing parallel block has statements left, it returns a fork for each.
+func (t *Thread) closeBlock() ([]*Process, bool) {
 	frame := t.currentFrame()
 	if frame == nil {
-		return false
+		return nil, false
 	}
 	for {
 
@@ -1284,7 +1311,7 @@ func (t *Thread) executeEndOfBlock() bool {
 
 			if t.Stack.Len() == 0 {
 				t.Process.removeCurrentThread()
-				return true
+				return nil, true
 			} else {
 				frame = t.currentFrame()
 				// if protobuf is of type Function then it is a function call.
@@ -1313,8 +1340,7 @@ func (t *Thread) executeEndOfBlock() bool {
 					}
 					t.Process.updateAllVariablesInScope(returnedVars)
 					t.Process.RecordReturn(t.currentFrame(), oldFrame, starlark.None, oldScope.flow)
-					_, yield := t.executeEndOfStatement()
-					return yield
+					return t.executeEndOfStatement()
 				}
 
 			}
@@ -1322,7 +1348,7 @@ func (t *Thread) executeEndOfBlock() bool {
 		frame.pc = RemoveLastBlock(t.currentPc())
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
-			return yield
+			return forks, yield
 		}
 
 		if t.currentPc() != "" {
@@ -1332,9 +1358,9 @@ func (t *Thread) executeEndOfBlock() bool {
 	if frame.scope.flow == ast.Flow_FLOW_SERIAL ||
 		frame.scope.flow == ast.Flow_FLOW_PARALLEL {
 		// Only yield if there was at least one executable statement
-		return t.Process.Enabled
+		return nil, t.Process.Enabled
 	}
-	return false
+	return nil, false
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-- 
2.43.0


From 22ccc52d7e06961d45db834c961eea613f3cf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 07/72] fix: a chosen element belongs to the branch that chose
 it

---
 modelchecker/processor.go |  5 ++++-
 modelchecker/thread.go    | 34 ++++++++++++++--------------------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 9b9698c..a235598 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -342,8 +342,11 @@ func (p *Process) IsYieldNode() bool {
 }
 
 func (p *Process) Fork() *Process {
-	refs := make(map[starlark.Value]starlark.Value)
+	return p.forkWithRefs(make(map[starlark.Value]starlark.Value))
+}
 
+// forkWithRefs is Fork that records in refs the copy made of each value.
+func (p *Process) forkWithRefs(refs map[starlark.Value]starlark.Value) *Process {
 	p2 := &Process{
 		Name:      p.Name,
 		Heap:      p.Heap.Clone(refs, nil, 0),
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 9afbc91..68e2f8f 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -552,10 +552,20 @@ func (t *Thread) executeInvariant() {
 // forkAlternative forks the process for one alternative of a choice made within a
 // step. What the step executed before the choice has enabled every alternative.
 func (t *Thread) forkAlternative() *Process {
-	fork := t.Process.Fork()
+	fork, _ := t.forkAlternativeFor(starlark.None)
+	return fork
+}
+
+// forkAlternativeFor is forkAlternative for the alternative that chooses the given
+// value. It returns the copy of the value that belongs to the fork.
+func (t *Thread) forkAlternativeFor(choice starlark.Value) (*Process, starlark.Value) {
+	refs := make(map[starlark.Value]starlark.Value)
+	fork := t.Process.forkWithRefs(refs)
 	fork.Enabled = t.Process.Enabled
 	fork.ThreadProgress = t.Process.ThreadProgress
-	return fork
+	forkChoice, err := deepCloneStarlarkValue(choice, refs)
+	PanicOnError(err)
+	return fork, forkChoice
 }
 
 func (t *Thread) executeBlock() []*Process {
@@ -699,17 +709,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.forkAlternative()
+			fork, x := t.forkAlternativeFor(x)
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
-			if r, ok := x.(*lib.Role); ok {
-				for _, role := range fork.Roles {
-					if r.RefString() == role.RefString() {
-						x = role
-						break
-					}
-				}
-			}
 			if stmt.AnyStmt.Block == nil {
 				fork.Enabled = true
 				fork.updateVariable(stmt.AnyStmt.LoopVars[0], x)
@@ -1154,15 +1156,7 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// should take only 1 second. Technically max time taken for each iteration.
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
-		fork := t.forkAlternative()
-		if r, ok := x.(*lib.Role); ok {
-			for _, role := range fork.Roles {
-				if r.RefString() == role.RefString() {
-					x = role
-					break
-				}
-			}
-		}
+		fork, x := t.forkAlternativeFor(x)
 		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
 		fork.Name = fmt.Sprintf("For:%s", x.String())
 		newSlice := removeElement(scope.loopRange, i)
-- 
2.43.0


From 144948aeb840d4ed49187156380acdfdea587fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 08/72] fix: values within structs belong to the branch that
 changes them

---
 modelchecker/clone.go         | 25 +++++++++++++++++++++++--
 modelchecker/state_visitor.go | 10 +++++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index e86df9b..340f871 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 func deepCloneStarlarkValue(value starlark.Value, refs map[starlark.Value]starlark.Value) (starlark.Value, error) {
@@ -25,10 +26,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	// "builtin_function_or_method".
 	switch value.Type() {
 
-	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "struct", "symmetric_values", "Channel", "symmetry_domain":
+	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "symmetric_values", "Channel", "symmetry_domain":
 		//case starlark.Bool, starlark.String, starlark.Int:
 		// For simple values, just return a copy
-		// Also starlark struct is immutable
 		// symmetry_domain is stateless configuration (Name, Limit, DomainType)
 		return value, nil
 
@@ -131,6 +131,27 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		newDict := CloneDict(dict, refs, permutations, alt)
 		newVal.ReplaceEntriesFromStringDict(newDict)
 		return newVal, nil
+	case "struct":
+		// A struct is immutable, but the values of its fields might not be.
+		v, ok := value.(*starlarkstruct.Struct)
+		if !ok {
+			return value, nil
+		}
+		dict := starlark.StringDict{}
+		v.ToStringDict(dict)
+		for name, field := range dict {
+			if field.Type() == "builtin_function_or_method" || field.Type() == "module" {
+				continue
+			}
+			clonedField, err := deepCloneStarlarkValueWithPermutations(field, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			dict[name] = clonedField
+		}
+		newVal := starlarkstruct.FromStringDict(v.Constructor(), dict)
+		refs[value] = newVal
+		return newVal, nil
 	case "RoleStub":
 		// TODO(jp): Should this also reuse cached refs?
 		r := value.(*lib.RoleStub)
diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 866674d..5a2f5bd 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 // StateVisitor defines the interface for visiting state elements during traversal
@@ -106,7 +107,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 
 	switch value.Type() {
 	case "NoneType", "int", "float", "bool", "string", "bytes", "function",
-		"builtin_function_or_method", "range", "struct", "symmetric_values",
+		"builtin_function_or_method", "range", "symmetric_values",
 		"model_value", "Channel":
 		return
 
@@ -180,6 +181,13 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 			visitStarlarkValue(val, visitor, visited)
 		}
 
+	case "struct":
+		if st, ok := value.(*starlarkstruct.Struct); ok {
+			dict := starlark.StringDict{}
+			st.ToStringDict(dict)
+			visitStringDict(dict, visitor, visited)
+		}
+
 	case "role":
 		role := value.(*lib.Role)
 		if role.IsSymmetric() {
-- 
2.43.0


From a0655c6ec9095bd40e18e6327e4eaefaef1faba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 09/72] fix: the rest of a parallel loop belongs to the branch
 that runs it

---
 modelchecker/thread.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 68e2f8f..8271109 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1157,10 +1157,10 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
 		fork, x := t.forkAlternativeFor(x)
-		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
 		fork.Name = fmt.Sprintf("For:%s", x.String())
-		newSlice := removeElement(scope.loopRange, i)
-		fork.currentThread().currentFrame().scope.loopRange = newSlice
+		forkScope := fork.currentThread().currentFrame().scope
+		forkScope.vars[scope.loopVars[0]] = x
+		forkScope.loopRange = removeElement(forkScope.loopRange, i)
 
 		forks = append(forks, fork)
 	}
-- 
2.43.0


From 4189df44685173d29f56458b17a07aa0d5e308d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 10/72] fix: state variables keep sharing values with the
 fields of roles

---
 modelchecker/thread.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 8271109..7d0c384 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1283,11 +1283,9 @@ func (t *Thread) closeBlock() ([]*Process, bool) {
 
 			if action, ok := protobuf.(*ast.Action); ok {
 				if action.Name == "Init" {
-					roleRefs := make(map[starlark.Value]starlark.Value)
-					for _, role := range t.Process.Roles {
-						roleRefs[role] = role
-					}
-					variables := oldScope.GetAllVisibleVariables(roleRefs)
+					// Not copied: the variables may share values with the fields of roles.
+					variables := starlark.StringDict{}
+					oldScope.getAllVisibleVariablesToDictNoCopy(variables)
 					for s, value := range variables {
 						if !t.Process.Heap.globals.Has(s) && slices.Contains(t.Process.topLevelVars, s) {
 							t.Process.Heap.insert(s, value)
-- 
2.43.0


From ee11639a32f3337dbf43f3f0720e769ffa04bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 11/72] fix: number roles within a state, not in exploration
 order

---
 lib/starlark_role.go      | 29 ++++++++---------------------
 modelchecker/processor.go |  1 -
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index d247ec4..7510ebc 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -14,35 +14,21 @@ var (
 	}
 )
 
-var (
-	roleRefs = map[string]int64{}
-)
-
-func ClearRoleRefs() {
-	roleRefs = map[string]int64{}
-}
-
 // GlobalRefsSnapshot captures the package-level allocation counters that
-// action execution mutates as a side effect (role refs, channel ids).
+// action execution mutates as a side effect (channel ids).
 // Speculative execution that will be discarded (e.g. the next_states()
 // assertion probe) must snapshot before executing and restore after, so the
 // discarded runs don't shift the ref numbering of subsequent real
 // exploration.
 type GlobalRefsSnapshot struct {
-	roleRefs      map[string]int64
 	nextChannelId int
 }
 
 func SnapshotGlobalRefs() GlobalRefsSnapshot {
-	copied := make(map[string]int64, len(roleRefs))
-	for k, v := range roleRefs {
-		copied[k] = v
-	}
-	return GlobalRefsSnapshot{roleRefs: copied, nextChannelId: nextChannelId}
+	return GlobalRefsSnapshot{nextChannelId: nextChannelId}
 }
 
 func RestoreGlobalRefs(s GlobalRefsSnapshot) {
-	roleRefs = s.roleRefs
 	nextChannelId = s.nextChannelId
 }
 
@@ -204,11 +190,12 @@ func CreateRoleBuiltin(astRole *ast.Role, symmetric bool, roles *[]*Role) *starl
 	return starlark.NewBuiltin(name, func(t *starlark.Thread, b *starlark.Builtin,
 		args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 		params := FromKeywords(starlark.String("params"), kwargs)
-		nextRef := roleRefs[name]
-		if roleRefs[name] > 0 {
-			roleRefs[name]++
-		} else {
-			roleRefs[name] = 1
+		// Numbered within the state, not in the order in which states are explored.
+		nextRef := int64(0)
+		for _, other := range *roles {
+			if other != nil && other.Name == name && other.GetRef() >= nextRef {
+				nextRef = other.GetRef() + 1
+			}
 		}
 		fields := FromStringDict(starlark.String("fields"), starlark.StringDict{})
 		initValues := FromStringDict(starlark.String("init_values"), starlark.StringDict{})
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index a235598..5186d8e 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1393,7 +1393,6 @@ func NewProcessorWithVisitedTracking(files []*ast.File, options *ast.StateSpaceO
 		collection = lib.NewQueue[*Node]()
 		intermediateStates = lib.NewQueue[*Node]()
 	}
-	lib.ClearRoleRefs()
 	durabilitySpec := &DurabilitySpec{RoleDurabilitySpec: make(map[string]RoleDurabilitySpec)}
 	mc := NewModelChecker("example")
 	for _, file := range files {
-- 
2.43.0


From 3e57e9beb6db9aea15f786aaf632a15eb0c0b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 12/72] fix: tell states apart by the arguments of running
 functions

---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 7d0c384..c106f7d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -313,6 +313,10 @@ func (c *CallFrame) HashCode() string {
 	// if program counter is at different stmts.
 	h := c.scope.Hash()
 	h.Write([]byte(c.pc))
+	// The arguments of a function are variables as well.
+	vars, err := StringDictToJson(c.vars)
+	PanicOnError(err)
+	h.Write(vars)
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
-- 
2.43.0


From b11b16155d63ff6a2557245425bab04a51771995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 13/72] fix: continue with the other branches of a step after a
 failed assertion

---
 modelchecker/processor.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5186d8e..7a34ae2 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1553,18 +1553,19 @@ func (p *Processor) Start() (init *Node, failedNode *Node, err error) {
 // path can share it.
 //
 // Returns:
-//   - invariantFailure: result of the final processNode call.
+//   - invariantFailure: whether any processNode call found a failure.
 //   - symmetryFound: result of the final processNode call.
 //   - crashFailedNode: the FIRST crash-injected node that failed an invariant
 //     during this expansion (or nil). Caller decides whether to record it.
-//   - finalNode: the node that processNode was called on in the last iteration
-//     (may differ from the input when intermediateStates produced extra
-//     non-yield successors).
+//   - finalNode: the first node that failed or else the node that processNode
+//     was called on in the last iteration (may differ from the input when
+//     intermediateStates produced extra non-yield successors).
 //
 // prevCount is mutated in-place to track the last logged visited count.
 func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *int) (
 	invariantFailure bool, symmetryFound bool, crashFailedNode *Node, finalNode *Node) {
 	finalNode = node
+	var failed *Node
 	for {
 		if len(p.visited)%20000 == 0 && len(p.visited) != *prevCount {
 			if p.isTest {
@@ -1575,6 +1576,9 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 			*prevCount = len(p.visited)
 		}
 		invariantFailure, symmetryFound = p.processNode(finalNode)
+		if invariantFailure && failed == nil {
+			failed = finalNode
+		}
 		if p.guidedTrace != nil {
 			p.visited = make(map[string]*Node)
 		}
@@ -1598,6 +1602,9 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 		}
 		finalNode, _ = p.intermediateStates.Remove()
 	}
+	if failed != nil {
+		return true, false, crashFailedNode, failed
+	}
 	return
 }
 
@@ -2349,7 +2356,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 					node.Name = "yield"
 				}
 				node.Attach()
-				p.intermediateStates.ClearAll()
+				if !p.config.ContinueOnInvariantFailures {
+					p.intermediateStates.ClearAll()
+				}
 				return true, false
 			}
 		}
@@ -2416,7 +2425,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		node.Process.FailedInvariants = failedInvariants
 		if !p.config.ContinuePathOnInvariantFailures {
 			node.Name = "yield"
-			p.intermediateStates.ClearAll()
+			if !p.config.ContinueOnInvariantFailures {
+				p.intermediateStates.ClearAll()
+			}
 			return true, false
 		}
 	}
-- 
2.43.0


From 745e1a9aec5312ef8d6e93c6a49087793cf94ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 14/72] fix: an assertion that ends without a return does not
 hold

---
 modelchecker/invariants.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d6104ac..ad31b17 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -206,7 +206,10 @@ func execFunctionBlock(cloned *Process, name string, pc string) starlark.Value {
 	for {
 		forks, _ := assertThread.Execute()
 		if cloned.GetThreadsCount() <= numThreads {
-			return cloned.Returns[name]
+			if val := cloned.Returns[name]; val != nil {
+				return val
+			}
+			return starlark.None
 		}
 		if len(forks) > 0 {
 			panic("Assertions should not include non-deterministic behavior")
-- 
2.43.0


From abdd9cee52ec097cabb1167a79db704f351c6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 15/72] fix: check transition assertions between yield points

---
 modelchecker/invariants.go | 30 ++++++++++++++++++++++++++----
 modelchecker/processor.go  | 21 ++++++++++++++++-----
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index ad31b17..40eed03 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -50,11 +50,32 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 	return true
 }
 
+// stepStart returns the process at which the running step started: the
+// closest ancestor that is a yield point.
+func stepStart(process *Process) *Process {
+	start := process.Parent
+	for start != nil && !start.IsYield && start.Parent != nil {
+		start = start.Parent
+	}
+	return start
+}
+
+// HasTransitionInvariants tells whether a file has transition assertions.
+func HasTransitionInvariants(file *ast.File) bool {
+	for _, invariant := range file.Invariants {
+		if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
+			return true
+		}
+	}
+	return false
+}
+
 func CheckTransitionInvariants(process *Process) map[int][]int {
-	if process.Parent == nil {
+	start := stepStart(process)
+	if start == nil {
 		return nil
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	if process.Heap.CachedHashCode == start.Heap.CachedHashCode && start.Heap.CachedHashCode != "" {
 		return nil
 	}
 	results := make(map[int][]int)
@@ -219,7 +240,8 @@ func execFunctionBlock(cloned *Process, name string, pc string) starlark.Value {
 }
 
 func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index int) bool {
-	if process.Parent == nil {
+	start := stepStart(process)
+	if start == nil {
 		return true
 	}
 	beforeParam, afterParam := "before", "after"
@@ -230,7 +252,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.Parent.Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), start.CloneForAssert(nil, 0).Heap.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 7a34ae2..4adb90b 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2348,14 +2348,18 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	// determined by the statement, and we include program counter in the hash code,
 	// this may not be an issue.
 	if node.actionDepth > 0 {
-		failedInvariants := CheckTransitionInvariants(node.Process)
+		// A transition goes from one yield point to the next one.
+		var failedInvariants map[int][]int
+		if yield {
+			failedInvariants = CheckTransitionInvariants(node.Process)
+		}
 		if len(failedInvariants[0]) > 0 {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
-				if yield {
-					node.Name = "yield"
+				node.Name = "yield"
+				if !p.experimentalNoGraph {
+					node.Attach()
 				}
-				node.Attach()
 				if !p.config.ContinueOnInvariantFailures {
 					p.intermediateStates.ClearAll()
 				}
@@ -2482,7 +2486,12 @@ func stepProgress(process *Process, yield bool) string {
 	if yield {
 		return ""
 	}
-	return fmt.Sprintf("|enabled=%t|progress=%t", process.Enabled, process.ThreadProgress)
+	progress := fmt.Sprintf("|enabled=%t|progress=%t", process.Enabled, process.ThreadProgress)
+	// Transition assertions tell apart the states a step started from.
+	if start := stepStart(process); start != nil && HasTransitionInvariants(process.Files[0]) {
+		progress += "|from=" + start.HashCode()
+	}
+	return progress
 }
 
 func (p *Processor) crashProcess(node *Node) *Node {
@@ -2549,6 +2558,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	}
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
+	crashFork.IsYield = true
 	crashFork.Labels = append(crashFork.Labels, fmt.Sprintf("crash-%s", role.RefString()))
 	crashNode := node.ForkForAlternatePaths(crashFork, fmt.Sprintf("crash-%s", role.RefString()))
 	if !p.ShouldScheduleNode(crashNode) {
@@ -2592,6 +2602,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 func (p *Processor) crashThread(node *Node) {
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
+	crashFork.IsYield = true
 	crashFork.removeCurrentThread()
 	crashNode := node.ForkForAlternatePaths(crashFork, "crash")
 	if !p.ShouldScheduleNode(crashNode) {
-- 
2.43.0


From 3feb7deb0541788ad52f71424ac75f5e48ad7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 16/72] fix: steps that share unfinished states are not
 deadlocks

---
 modelchecker/markovchain.go | 81 +++++++++++++++----------------------
 1 file changed, 32 insertions(+), 49 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index e7c092e..f80108f 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -487,36 +487,22 @@ func traverseDFS(node *Node, visited map[*Node]bool, result *[]*Node, yield *int
 func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, int) {
 	msgs := make([]string, 0)
 	msgSet := make(map[string]int)
-	type stat struct {
-		index int
-		deadNode *Node
-		livePaths int
-	}
-	visited := make(map[*Node]*stat)
+	visited := make(map[*Node]bool)
 	var result []*Node
-	type queuedEntry struct {
-		node *Node
-		yieldNode *Node
-	}
-	queue := lib.NewQueue[*queuedEntry]()
-	queue.Enqueue(&queuedEntry{
-		node:      rootNode,
-		yieldNode: rootNode,
-	})
+	queue := lib.NewQueue[*Node]()
+	queue.Enqueue(rootNode)
 	yield := 0
 	maxDepth := 0
 	for queue.Count() > 0 {
-		entry, _ := queue.Dequeue()
-		node := entry.node
-		if _, ok := visited[node]; ok {
+		node, _ := queue.Dequeue()
+		if visited[node] {
 			continue
 		}
-		visited[node] = &stat{}
+		visited[node] = true
 
 		if node.Process != nil && !node.Process.Enabled {
 			continue
 		}
-		visited[node].index = len(result)
 		result = append(result, node)
 		if node.Name == "yield" {
 			yield++
@@ -525,34 +511,16 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			maxDepth = node.forkDepth
 		}
 		enabledLinks := make([]*Link, 0)
-		crashLinks := 0
 		for _, link := range node.Outbound {
 			if !link.Node.Enabled {
 				continue
 			}
 			enabledLinks = append(enabledLinks, link)
-			if link.IsCrashLink() {
-				crashLinks++
-			}
 		}
 		node.Outbound = enabledLinks
 
-		if len(enabledLinks)-crashLinks == 0 && visited[entry.yieldNode].deadNode == nil {
-			visited[entry.yieldNode].deadNode = node
-		}
-
 		for _, link := range node.Outbound {
-			yieldNode := entry.yieldNode
-			if link.Node.Name == "yield" || link.Node.Name == "init" || link.Node.Name == "crash" {
-				if !link.IsCrashLink() {
-					visited[yieldNode].livePaths++
-				}
-				yieldNode = link.Node
-			}
-			queue.Enqueue(&queuedEntry{
-				node:      link.Node,
-				yieldNode: yieldNode,
-			})
+			queue.Enqueue(link.Node)
 
 			if link.Type == "action" {
 				if node == link.Node || node.HashCode() == link.Node.HashCode() {
@@ -609,16 +577,6 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		}
 	}
 	var deadlock *Node
-	for _, node := range result {
-		entry := visited[node]
-		if entry.deadNode != nil && entry.livePaths == 0 && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
-			// Return the yield node itself (not the dead non-yield node) so the
-			// deadlock trace stops at the meaningful stuck state rather than
-			// pointing into a dead nondeterministic branch.
-			deadlock = node
-			break
-		}
-	}
 
 	// Remove non-yield nodes that cannot reach any yield/init/crash node.
 	// Such nodes arise when a nondeterministic choice (oneof) creates branches
@@ -651,6 +609,31 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 				}
 			}
 		}
+
+		// A yield point none of whose steps reaches another yield point is a
+		// deadlock. Crashes do not count as steps. Steps from several yield
+		// points can share non-yield nodes, so this looks at aliveSet and not
+		// at the paths of the traversal.
+		for _, node := range result {
+			if node != rootNode && node.Name != "yield" && node.Name != "init" && node.Name != "crash" {
+				continue
+			}
+			live := false
+			for _, link := range node.Outbound {
+				if !link.IsCrashLink() && aliveSet[link.Node] {
+					live = true
+					break
+				}
+			}
+			if !live && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
+				// Return the yield node itself (not the dead non-yield node) so the
+				// deadlock trace stops at the meaningful stuck state rather than
+				// pointing into a dead nondeterministic branch.
+				deadlock = node
+				break
+			}
+		}
+
 		filtered := result[:0]
 		for _, node := range result {
 			if !aliveSet[node] {
-- 
2.43.0


From c8d488c93851cdcca7430235c08bf91c0e80a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 17/72] fix: unfinished steps do not pass for yield points

---
 modelchecker/processor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 4adb90b..ae08e71 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3208,6 +3208,15 @@ func (p *Processor) processInit(node *Node) bool {
 	return false
 }
 
+// nameStep names the unfinished step that continues from a yield point. The
+// name inherited from the yield point would make it look like one.
+func nameStep(node *Node, name string) {
+	switch node.Process.Name {
+	case "yield", "crash", "init":
+		node.Process.Name = name
+	}
+}
+
 func (p *Processor) YieldNode(node *Node) {
 
 	for i, thread := range node.Threads {
@@ -3216,6 +3225,7 @@ func (p *Processor) YieldNode(node *Node) {
 		}
 		name := fmt.Sprintf("thread-%d", i)
 		newNode := node.ForkForAlternatePaths(thread.Process.Fork(), name)
+		nameStep(newNode, name)
 		newNode.Current = i
 		newNode.Inbound[len(newNode.Inbound)-1].ReqId = i
 		newNode.ThreadProgress = true
@@ -3267,6 +3277,7 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 		}
 		name := fmt.Sprintf("thread-%d", i)
 		newNode := node.ForkForAlternatePaths(thread.Process.Fork(), name)
+		nameStep(newNode, name)
 		newNode.Current = i
 		newNode.Inbound[len(newNode.Inbound)-1].ReqId = i
 		newNode.ThreadProgress = true
@@ -3296,6 +3307,7 @@ func (p *Processor) scheduleChannelMessages(node *Node) {
 		for j, _ := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
+			nameStep(newNode, linkName)
 			newMsg := newNode.ChannelMessages[i][j]
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
 			thread := newNode.Process.NewThread()
-- 
2.43.0


From e289733df71d6c041b5a037028b0d2af50d41e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 18/72] fix: deadlock detection without a graph

---
 modelchecker/processor.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ae08e71..330d035 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2015,7 +2015,7 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 				// Disabled path: a require failed or the body was a no-op.
 				continue
 			}
-			progress := stepProgress(n.Process, yield)
+			progress := p.stepProgress(n.Process, yield)
 			if n.ThreadProgress {
 				n.Enable()
 			}
@@ -2318,7 +2318,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if len(forks) == 0 && !node.Enabled && !node.ThreadProgress {
 		return false, false
 	}
-	progress := stepProgress(node.Process, yield)
+	progress := p.stepProgress(node.Process, yield)
 	if node.ThreadProgress {
 		node.Enable()
 	}
@@ -2391,6 +2391,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// in no_graph mode we don't keep the existing Node to compare.
 		if found {
 			// Pure dedup hit; the current node won't be retained either.
+			// A known yield point is a real transition for the early
+			// deadlock detector.
+			if yield && node.Enabled {
+				p.dedupHitsInExpansion++
+			}
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
@@ -2482,13 +2487,16 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 }
 
 // stepProgress identifies the progress of an unfinished step.
-func stepProgress(process *Process, yield bool) string {
+func (p *Processor) stepProgress(process *Process, yield bool) string {
 	if yield {
 		return ""
 	}
 	progress := fmt.Sprintf("|enabled=%t|progress=%t", process.Enabled, process.ThreadProgress)
-	// Transition assertions tell apart the states a step started from.
-	if start := stepStart(process); start != nil && HasTransitionInvariants(process.Files[0]) {
+	// Transition assertions tell apart the states a step started from. So
+	// does deadlock detection without a graph, where a merged unfinished step
+	// does not tell whether it can finish.
+	if start := stepStart(process); start != nil &&
+		(HasTransitionInvariants(process.Files[0]) || p.experimentalNoGraph && p.config.GetDeadlockDetection()) {
 		progress += "|from=" + start.HashCode()
 	}
 	return progress
-- 
2.43.0


From c6ffeb4ccbd7255fa6ab060a6c7bf8fdf334822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 19/72] fix: functions called with a message can return a value

---
 modelchecker/thread.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index c106f7d..62c2498 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -874,8 +874,11 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 					t.Process.Returns[convertToFunction(function).Name] = val
 				} else if _, ok := action.(*ast.Role); ok {
 					actionPath = pathComp[0] + "." + pathComp[1]
-					action1 = GetProtoFieldByPath(fileAst, actionPath).(*ast.Action)
-					t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					// The value that a function returns has no receiver when the
+					// function was called with a message.
+					if action1, ok := GetProtoFieldByPath(fileAst, actionPath).(*ast.Action); ok {
+						t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					}
 					t.Process.Enable()
 				} else {
 					panic(fmt.Sprintf("Unknown protobuf type: %T, value %v at path %s", action, action, currentFrame.pc))
-- 
2.43.0


From 0ed832ce416c2a184bee813fa66db1ffb7fec3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 20/72] fix: roles that refer back to themselves can be printed

---
 lib/starlark_role.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index 7510ebc..a67a15d 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -41,6 +41,8 @@ type Role struct {
 	Methods     map[string]*starlark.Function
 	RoleMethods map[string]*starlark.Builtin
 	InitValues  *Struct
+	// printing is set while String runs, as the fields can refer back to the role.
+	printing bool
 
 	// Ref field is removed. Use GetRef() to retrieve the integer ID from the ID field.
 }
@@ -113,6 +115,11 @@ func (r *Role) AttrNames() []string {
 }
 
 func (r *Role) String() string {
+	if r.printing {
+		return r.RefString()
+	}
+	r.printing = true
+	defer func() { r.printing = false }()
 	b := strings.Builder{}
 	b.WriteString(fmt.Sprintf("role %s#%d (", r.Name, r.GetRef()))
 	if len(r.Params.AttrNames()) > 0 {
-- 
2.43.0


From 4751d576f0db07fa5f95182550d8073798a4afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 21/72] fix: copies of roles that refer to themselves stay one
 role

---
 modelchecker/clone.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 340f871..7cca718 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -268,25 +268,26 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		if cached, ok := refs[value]; ok {
 			return cached, nil
 		} else {
-			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
-			if err != nil {
-				return nil, err
-			}
-			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
-			if err != nil {
-				return nil, err
-			}
 			newRole := &lib.Role{
 				ID:          id,
 				Name:        prefix,
 				Symmetric:   r.IsSymmetric(),
-				Params:      params.(*lib.Struct),
-				Fields:      fields.(*lib.Struct),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
 				InitValues:  r.InitValues,
 			}
+			// The fields can refer back to the role
 			refs[value] = newRole
+			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			newRole.Params = params.(*lib.Struct)
+			newRole.Fields = fields.(*lib.Struct)
 			return newRole, nil
 		}
 	default:
-- 
2.43.0


From 29deb13b5ffdf7c0bf76fd02abe4b5061fbf4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 22/72] fix: a crash of a role ends only the actions of that
 instance

---
 modelchecker/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 330d035..2a9f62c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2573,7 +2573,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 		return nil, nil
 	}
 	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefString() != role.RefString() {
 			continue
 		}
 		crashNode.removeThread(i)
-- 
2.43.0


From 2e6d550d34c56f96f792700e18aae5930f080f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 23/72] fix: crashes after another role's crash respect the
 roles that wait for a call

---
 modelchecker/processor.go | 67 ++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 2a9f62c..66eb66c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2503,9 +2503,13 @@ func (p *Processor) stepProgress(process *Process, yield bool) string {
 }
 
 func (p *Processor) crashProcess(node *Node) *Node {
-	// For each thread, iterate over the stack frames from the deepest to the top.
-	// find all the roles that present in the nested layers of the stack frames, but not at the top in each thread.
-	safeRolesList := make([]*lib.Role, 0)
+	return p.crashRoles(node, make(map[string]bool))
+}
+
+// safeRoles returns the references of the roles that are present in the nested layers of
+// the stack frames of a thread, but not at its top.
+func safeRoles(node *Node) map[string]bool {
+	safe := make(map[string]bool)
 	for _, thread := range node.GetThreads() {
 		frames := thread.Stack.RawArray()
 		if len(frames) <= 1 {
@@ -2517,47 +2521,36 @@ func (p *Processor) crashProcess(node *Node) *Node {
 			if role == nil || role == topFrame.obj {
 				continue
 			}
-			safeRolesList = append(safeRolesList, role)
+			safe[role.RefString()] = true
 		}
 	}
-	roleMap := make(map[string]int)
-	for i, role := range p.Files[0].Roles {
-		roleMap[role.Name] = i
-	}
-	failedNode := p.crashRoles(node, slices.Clone(safeRolesList))
-	if failedNode != nil {
-		return failedNode
-	}
-	//for _, role := range node.Roles {
-	//	if !slices.Contains(safeRolesList, role) {
-	//		failedNode := p.crashRoles(node, role, slices.Clone(safeRolesList))
-	//		if failedNode != nil {
-	//			return failedNode
-	//		}
-	//	}
-	//}
-	return nil
+	return safe
 }
 
-func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
-	var failedNode *Node
-	var crashNode *Node
+// crashRoles crashes every role that can crash, and then the others in addition. Every
+// crash leads to a copy of the process, so roles are identified by their references.
+func (p *Processor) crashRoles(node *Node, crashed map[string]bool) *Node {
+	safe := safeRoles(node)
 	for _, role := range node.Roles {
-		if !slices.Contains(safeRolesList, role) {
-			crashNode, failedNode = p.crashRole(node, role)
-			if failedNode != nil {
-				return failedNode
-			}
-			if crashNode == nil {
-				continue
-			}
-			failedNode = p.crashRoles(crashNode, slices.Clone(append(safeRolesList, role)))
-			if failedNode != nil {
-				return failedNode
-			}
+		ref := role.RefString()
+		if crashed[ref] || safe[ref] {
+			continue
+		}
+		crashNode, failedNode := p.crashRole(node, role)
+		if failedNode != nil {
+			return failedNode
+		}
+		if crashNode == nil {
+			continue
+		}
+		nested := maps.Clone(crashed)
+		nested[ref] = true
+		failedNode = p.crashRoles(crashNode, nested)
+		if failedNode != nil {
+			return failedNode
 		}
 	}
-	return failedNode
+	return nil
 }
 
 func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
-- 
2.43.0


From 4760969a24b1e3f144133ab86eeece3824857dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 24/72] fix: a crash restores the initial values every time

---
 modelchecker/clone.go     |  6 +++++-
 modelchecker/processor.go | 10 +++++++++-
 modelchecker/thread.go    |  7 ++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 7cca718..1eedfd1 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -274,7 +274,6 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Symmetric:   r.IsSymmetric(),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
-				InitValues:  r.InitValues,
 			}
 			// The fields can refer back to the role
 			refs[value] = newRole
@@ -286,6 +285,11 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
+			initValues, err := deepCloneStarlarkValueWithPermutations(r.InitValues, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			newRole.InitValues = initValues.(*lib.Struct)
 			newRole.Params = params.(*lib.Struct)
 			newRole.Fields = fields.(*lib.Struct)
 			return newRole, nil
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 66eb66c..5efccfb 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3592,9 +3592,17 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
+	// The fields get copies, as actions may change them in place.
+	// References to roles stay references.
+	roleRefs := make(map[starlark.Value]starlark.Value)
+	for _, r := range node.Roles {
+		roleRefs[r] = r
+	}
 	for _, fieldName := range role.InitValues.AttrNames() {
 		attr, _ := role.InitValues.Attr(fieldName)
-		role.Fields.SetField(fieldName, attr)
+		attrCloned, err := deepCloneStarlarkValue(attr, roleRefs)
+		PanicOnError(err)
+		role.Fields.SetField(fieldName, attrCloned)
 	}
 }
 
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 62c2498..1ced9dd 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1364,7 +1364,12 @@ func (t *Thread) closeBlock() ([]*Process, bool) {
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
 	fields := oldFrame.obj.Fields
-	fieldsCloned, err := deepCloneStarlarkValue(fields, nil)
+	// References to roles stay references
+	roleRefs := make(map[starlark.Value]starlark.Value)
+	for _, role := range t.Process.Roles {
+		roleRefs[role] = role
+	}
+	fieldsCloned, err := deepCloneStarlarkValue(fields, roleRefs)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 767baa196ec2ec8d290a4817ce3fa7d5f4b10f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 25/72] fix: states that a crash resets differently are
 different

---
 modelchecker/processor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5efccfb..e729e83 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -637,6 +637,14 @@ func (p *Process) HashCode() string {
 			panic(err)
 		}
 		h.Write(bytes)
+		// The values a crash restores are part of the state as well.
+		if len(role.InitValues.AttrNames()) > 0 {
+			bytes, err = role.InitValues.MarshalJSON()
+			if err != nil {
+				panic(err)
+			}
+			h.Write(bytes)
+		}
 	}
 	// hash the heap variables as well
 	heapHash := p.Heap.HashCode()
-- 
2.43.0


From b25ea3e5dff351a4f45ad6a7599db84b6624bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 26/72] fix: roles can crash after an action crashed

---
 modelchecker/processor.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index e729e83..d1705cd 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1230,6 +1230,10 @@ type Processor struct {
 	// visited state — a live transition that wouldn't grow the queue.)
 	dedupHitsInExpansion int
 
+	// threadCrashes: the states after a thread crashed whose roles are yet to
+	// be crashed (see expandToYield).
+	threadCrashes []*Node
+
 	// uniqueYieldCount: incremented each time publishYieldPoint records a
 	// NEW yield-point (after dedup, so duplicates do not double-count).
 	// Used by no-graph mode to report "Unique states" without the in-memory
@@ -1605,6 +1609,18 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 				break
 			}
 		}
+		// The states after a thread crashed are yield points as well.
+		threadCrashes := p.threadCrashes
+		p.threadCrashes = nil
+		for _, threadCrash := range threadCrashes {
+			crashed := p.crashProcess(threadCrash)
+			if crashed != nil && crashFailedNode == nil {
+				crashFailedNode = crashed
+			}
+		}
+		if crashFailedNode != nil && !p.config.ContinueOnInvariantFailures {
+			break
+		}
 		if p.intermediateStates.Len() == 0 {
 			break
 		}
@@ -2631,6 +2647,9 @@ func (p *Processor) crashThread(node *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 	p.publishYieldPoint(crashNode, nil)
+	if !p.simulation {
+		p.threadCrashes = append(p.threadCrashes, crashNode)
+	}
 }
 
 func (p *Process) getSymmetryTranslations() []string {
-- 
2.43.0


From b7b4f21287220b6d4781cb421d0fca8ff42b8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 27/72] fix: violating states reached by a role crash are part
 of the graph, those after a violation are not

---
 modelchecker/processor.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index d1705cd..4125faa 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1600,7 +1600,7 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 		// the graph, none of which work when the graph is dropped. A
 		// warning is printed at startup; revisit in a follow-up if
 		// crash-resilience simulation is needed in no_graph mode.
-		if finalNode.Process != nil && p.config.Options.GetCrashOnYield() && finalNode.Enabled && (finalNode.Name == "yield" || finalNode.Name == "crash") && !p.experimentalNoGraph {
+		if !invariantFailure && finalNode.Process != nil && p.config.Options.GetCrashOnYield() && finalNode.Enabled && (finalNode.Name == "yield" || finalNode.Name == "crash") && !p.experimentalNoGraph {
 			crashed := p.crashProcess(finalNode)
 			if crashed != nil && crashFailedNode == nil {
 				crashFailedNode = crashed
@@ -2599,13 +2599,6 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	p.ResetEphemeralVariables(crashNode, role)
 	crashNode.Enable()
 
-	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
-	if len(failedInvariants[0]) > 0 {
-		crashNode.Process.FailedInvariants = failedInvariants
-		if !p.config.ContinuePathOnInvariantFailures {
-			return crashNode, crashNode
-		}
-	}
 	if node.Process.Enabled {
 		crashNode.Enable()
 	}
@@ -2617,6 +2610,14 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 
+	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	if len(failedInvariants[0]) > 0 {
+		crashNode.Process.FailedInvariants = failedInvariants
+		if !p.config.ContinuePathOnInvariantFailures {
+			return crashNode, crashNode
+		}
+	}
+
 	// Crash variants have no forks (single deterministic crash continuation),
 	// so pass nil. In NEW mode the crash yield-point is queued like any
 	// other; in OLD mode YieldNode runs immediately.
-- 
2.43.0


From 6dde01dfec970b96a630d68dbc8ad251bfa58c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 28/72] fix: strict liveness finds every fair cycle

---
 modelchecker/invariants.go | 258 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 256 insertions(+), 2 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 40eed03..f7b291b 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -627,7 +627,19 @@ func AlwaysEventuallyFinal(nodes []*Node, root *Node, predicate Predicate) ([]*L
 			return true, cycleCallbackResult
 		}
 	}
-	return CycleFinderFinal(nodes, root, f)
+	failurePath, isLive := CycleFinderFinal(nodes, root, f)
+	if !isLive {
+		return failurePath, isLive
+	}
+	// The cycles found depend on the order of the depth first search. Confirm there is
+	// no fair cycle at all that stays out of the live nodes.
+	within := make(map[*Node]bool)
+	for _, node := range nodes {
+		if relevant, value := predicate(node); !relevant || !value {
+			within[node] = true
+		}
+	}
+	return fairComponentPath(nodes, root, within, isFairnessNode)
 }
 
 func EventuallyAlwaysFinal(nodes []*Node, root *Node, predicate Predicate) ([]*Link, bool) {
@@ -667,7 +679,249 @@ func EventuallyAlwaysFinal(nodes []*Node, root *Node, predicate Predicate) ([]*L
 
 		//fmt.Println("Dead node NOT FOUND in the path")
 	}
-	return CycleFinderFinal(nodes, root, f)
+	failurePath, isLive := CycleFinderFinal(nodes, root, f)
+	if !isLive {
+		return failurePath, isLive
+	}
+	// The cycles found depend on the order of the depth first search. Confirm there is
+	// no fair cycle at all through a dead node.
+	within := make(map[*Node]bool)
+	for _, node := range nodes {
+		within[node] = true
+	}
+	return fairComponentPath(nodes, root, within, func(n *Node) bool {
+		relevant, value := predicate(n)
+		return relevant && !value
+	})
+}
+
+// isFairnessNode tells whether the actions enabled at this node count for fairness.
+func isFairnessNode(node *Node) bool {
+	return node.Name == "init" || node.Name == "yield" || node.Name == "crash"
+}
+
+// fairComponentPath returns the path to a fair cycle through the given nodes that includes
+// a node accepted by target, if there is one.
+func fairComponentPath(nodes []*Node, root *Node, within map[*Node]bool, target func(n *Node) bool) ([]*Link, bool) {
+	scc := findFairComponent(nodes, within, target)
+	if scc == nil {
+		return nil, true
+	}
+	return append(ExtractFailurePath(scc[0], root), fairCycle(scc)...), false
+}
+
+// findFairComponent looks for a set of nodes, including one accepted by target, that a fair
+// behavior can visit forever: strongly connected, and closed under fairness. That is, every
+// weakly fair link that is enabled at all the nodes and every strongly fair link
+// that is enabled at any of the nodes leads to a node of the set for at least one of its occurrences.
+// Crashes do not happen infinitely often.
+func findFairComponent(nodes []*Node, within map[*Node]bool, target func(n *Node) bool) []*Node {
+	for _, scc := range componentsWithin(nodes, within) {
+		if !slices.ContainsFunc(scc, target) {
+			continue
+		}
+		inScc := make(map[*Node]bool)
+		for _, node := range scc {
+			inScc[node] = true
+		}
+		taken := make(map[string]bool)
+		weakEnabled := make(map[string]int)
+		fairnessNodes := 0
+		hasCycle := false
+		for _, node := range scc {
+			if isFairnessNode(node) {
+				fairnessNodes++
+			}
+			weak := make(map[string]bool)
+			for _, link := range fairnessLinks(node) {
+				if inScc[link.Node] {
+					hasCycle = true
+				}
+				linkName, fairness := linkFairness(node, link)
+				if inScc[link.Node] {
+					taken[linkName] = true
+				}
+				if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
+					weak[linkName] = true
+				}
+			}
+			for linkName := range weak {
+				weakEnabled[linkName]++
+			}
+		}
+		if !hasCycle && !isFairnessNode(scc[0]) {
+			continue
+		}
+		isFair := true
+		for linkName, count := range weakEnabled {
+			if count == fairnessNodes && !taken[linkName] {
+				isFair = false
+			}
+		}
+		if !isFair {
+			continue
+		}
+		// A strongly fair link that can't be taken must not be enabled infinitely often
+		rest := make(map[*Node]bool)
+		for _, node := range scc {
+			if !slices.ContainsFunc(fairnessLinks(node), func(link *Link) bool {
+				linkName, fairness := linkFairness(node, link)
+				return fairness == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG && !taken[linkName]
+			}) {
+				rest[node] = true
+			}
+		}
+		if len(rest) == len(scc) {
+			return scc
+		}
+		if sub := findFairComponent(scc, rest, target); sub != nil {
+			return sub
+		}
+	}
+	return nil
+}
+
+// fairnessLinks lists the outbound links except crashes.
+func fairnessLinks(node *Node) []*Link {
+	links := make([]*Link, 0, len(node.Outbound))
+	for _, link := range node.Outbound {
+		if !link.IsCrashLink() {
+			links = append(links, link)
+		}
+	}
+	return links
+}
+
+// componentsWithin partitions the given nodes into strongly connected components (Tarjan's algorithm, with
+// an explicit stack as the graph can be deep).
+func componentsWithin(nodes []*Node, within map[*Node]bool) [][]*Node {
+	type frame struct {
+		node  *Node
+		links []*Link
+	}
+	index := make(map[*Node]int)
+	lowLink := make(map[*Node]int)
+	onStack := make(map[*Node]bool)
+	var stack []*Node
+	var components [][]*Node
+	for _, start := range nodes {
+		if _, ok := index[start]; ok || !within[start] {
+			continue
+		}
+		var calls []*frame
+		push := func(node *Node) {
+			index[node] = len(index)
+			lowLink[node] = index[node]
+			stack = append(stack, node)
+			onStack[node] = true
+			calls = append(calls, &frame{node: node, links: fairnessLinks(node)})
+		}
+		push(start)
+		for len(calls) > 0 {
+			f := calls[len(calls)-1]
+			if len(f.links) > 0 {
+				next := f.links[0].Node
+				f.links = f.links[1:]
+				if !within[next] {
+					continue
+				}
+				if _, ok := index[next]; !ok {
+					push(next)
+				} else if onStack[next] {
+					lowLink[f.node] = min(lowLink[f.node], index[next])
+				}
+				continue
+			}
+			calls = calls[:len(calls)-1]
+			if len(calls) > 0 {
+				parent := calls[len(calls)-1].node
+				lowLink[parent] = min(lowLink[parent], lowLink[f.node])
+			}
+			if lowLink[f.node] == index[f.node] {
+				i := slices.Index(stack, f.node)
+				components = append(components, slices.Clone(stack[i:]))
+				for _, node := range stack[i:] {
+					onStack[node] = false
+				}
+				stack = stack[:i]
+			}
+		}
+	}
+	return components
+}
+
+// fairCycle returns a cycle from the first node of the component, through all its nodes and links.
+func fairCycle(scc []*Node) []*Link {
+	inScc := make(map[*Node]bool)
+	for _, node := range scc {
+		inScc[node] = true
+	}
+	path := make([]*Link, 0)
+	last := scc[0]
+	// goTo appends the shortest path from the last node that ends with a link that is accepted.
+	goTo := func(accept func(link *Link) bool) {
+		type step struct {
+			link *Link
+			prev *step
+		}
+		visited := map[*Node]bool{last: true}
+		queue := []*step{{link: &Link{Node: last}}}
+		for len(queue) > 0 {
+			s := queue[0]
+			queue = queue[1:]
+			for _, link := range fairnessLinks(s.link.Node) {
+				if !inScc[link.Node] {
+					continue
+				}
+				if accept(link) {
+					links := []*Link{link}
+					for ; s.prev != nil; s = s.prev {
+						links = append(links, s.link)
+					}
+					slices.Reverse(links)
+					path = append(path, links...)
+					last = link.Node
+					return
+				}
+				if !visited[link.Node] {
+					visited[link.Node] = true
+					queue = append(queue, &step{link: link, prev: s})
+				}
+			}
+		}
+	}
+	seen := make(map[string]bool)
+	for _, node := range scc {
+		for _, link := range fairnessLinks(node) {
+			linkName, fairness := linkFairness(node, link)
+			if inScc[link.Node] && !seen[linkName] &&
+				(fairness == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG || fairness == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK) {
+				seen[linkName] = true
+				goTo(func(l *Link) bool { return l == link })
+			}
+		}
+		if last != node {
+			goTo(func(l *Link) bool { return l.Node == node })
+		}
+	}
+	if len(path) == 0 {
+		return []*Link{{Node: last, Name: "stutter"}}
+	}
+	if last != scc[0] {
+		goTo(func(l *Link) bool { return l.Node == scc[0] })
+	}
+	return path
+}
+
+// linkFairness returns the name of the link for fairness, and its fairness. Only fair choices count within
+// an action.
+func linkFairness(node *Node, link *Link) (string, ast.FairnessLevel) {
+	linkName, fairness, _ := fairnessLinkName(node, link)
+	if !isFairnessNode(node) && link.ChoiceFairness != ast.FairnessLevel_FAIRNESS_LEVEL_WEAK &&
+		link.ChoiceFairness != ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
+		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR
+	}
+	return linkName, fairness
 }
 
 func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
-- 
2.43.0


From 966f5dc4593e1004ac637a52213cb31e452748aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 29/72] fix: fairness of a continuing thread is about that
 thread

---
 modelchecker/invariants.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index f7b291b..45c84ae 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"maps"
 	"slices"
+	"strconv"
 	"strings"
 
 	"github.com/fizzbee-io/fizzbee/lib"
@@ -1079,9 +1080,14 @@ func fairnessLinkName(node *Node, outLink *Link) (string, ast.FairnessLevel, boo
 		}
 		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
 	} else if isThreadLink {
-		linkName = linkName + "|" + node.currentThread().currentPc()
-		if node.currentThread().currentFrame().obj != nil {
-			linkName = linkName + "|" + node.currentThread().currentFrame().obj.RefStringShort()
+		// The thread that continues, not the one that took the last step.
+		thread := node.currentThread()
+		if i, err := strconv.Atoi(strings.TrimPrefix(outLink.Name, "thread-")); err == nil && i < len(node.Threads) && node.Threads[i] != nil {
+			thread = node.Threads[i]
+		}
+		linkName = linkName + "|" + thread.currentPc()
+		if thread.currentFrame().obj != nil {
+			linkName = linkName + "|" + thread.currentFrame().obj.RefStringShort()
 		}
 		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
 	}
-- 
2.43.0


From 71f1b4cff012df5964a91a05b37f3cadbea3ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 30/72] fix: exists and transition assertions are reported
 without a graph too

---
 main.go                   | 18 ++++++++++++++----
 modelchecker/processor.go | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 58b645c..65e069d 100644
--- a/main.go
+++ b/main.go
@@ -764,6 +764,8 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			if failedNode != nil {
 				if failedNode.FailedInvariants != nil && len(failedNode.FailedInvariants) > 0 && len(failedNode.FailedInvariants[0]) > 0 {
 					fmt.Println("FAILED: Model checker failed. Invariant:", f.Invariants[failedNode.FailedInvariants[0][0]].Name)
+				} else if len(failedNode.Inbound) > 0 && len(failedNode.Inbound[0].FailedInvariants[0]) > 0 {
+					fmt.Println("FAILED: Model checker failed. Transition Invariant:", f.Invariants[failedNode.Inbound[0].FailedInvariants[0][0]].Name)
 				} else {
 					fmt.Println("FAILED: Model checker failed")
 				}
@@ -780,6 +782,10 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 				fmt.Println("Model checker stopped")
 				return nil
 			}
+			if invariants := p1.GetMissingWitnesses(); len(invariants) > 0 {
+				printMissingWitnesses(f, invariants)
+				return nil
+			}
 			fmt.Println("PASSED: Model checker completed successfully")
 			return rootNode
 		}
@@ -821,10 +827,7 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 				if guidedTrace == nil {
 					invariants := modelchecker.CheckSimpleExistsWitness(nodes)
 					if len(invariants) > 0 {
-						fmt.Println("\nFAILED: Expected states never reached")
-						for i2, invariant := range invariants {
-							fmt.Printf("Invariant %d: %s\n", i2, f.Invariants[invariant.InvariantIndex].Name)
-						}
+						printMissingWitnesses(f, invariants)
 						if !isTest {
 							fmt.Println("Time taken to check invariant: ", time.Now().Sub(endTime))
 						}
@@ -916,6 +919,13 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 	return nil
 }
 
+func printMissingWitnesses(f *ast.File, invariants []*modelchecker.InvariantPosition) {
+	fmt.Println("\nFAILED: Expected states never reached")
+	for i, invariant := range invariants {
+		fmt.Printf("Invariant %d: %s\n", i, f.Invariants[invariant.InvariantIndex].Name)
+	}
+}
+
 func writeCommunicationFileIfNeeded(messages []string, outDir string) bool {
 	if len(messages) > 0 && !simulation {
 		graphDot := modelchecker.GenerateCommunicationGraph(messages)
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 4125faa..ebfc48f 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1189,6 +1189,10 @@ type Processor struct {
 	// remains intact so a failure trace can be reconstructed on demand.
 	experimentalNoGraph bool
 
+	// existsWitness records the exists assertions satisfied so far, when
+	// there is no graph to look for them after the run.
+	existsWitness map[InvariantPosition]bool
+
 	// disableSymmetryReduction: when true, visited-set dedup uses only the
 	// plain state hash — no symmetry permutations, so no canonical renaming
 	// of symmetric values/roles in stored states. Larger state space, but
@@ -1353,6 +1357,35 @@ func (p *Processor) GetUniqueYieldCount() int {
 	return p.uniqueYieldCount
 }
 
+// recordWitness keeps the exists assertions satisfied in a state that is not kept itself.
+func (p *Processor) recordWitness(process *Process) {
+	for i, witness := range process.Witness {
+		for j, satisfied := range witness {
+			if satisfied {
+				if p.existsWitness == nil {
+					p.existsWitness = make(map[InvariantPosition]bool)
+				}
+				p.existsWitness[*NewInvariantPosition(i, j)] = true
+			}
+		}
+	}
+}
+
+// GetMissingWitnesses returns the exists assertions that no explored state satisfied, in
+// no-graph mode. See CheckSimpleExistsWitness for the other modes.
+func (p *Processor) GetMissingWitnesses() []*InvariantPosition {
+	missing := make([]*InvariantPosition, 0)
+	for i, file := range p.Files {
+		for j, invariant := range file.Invariants {
+			position := NewInvariantPosition(i, j)
+			if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "exists") && !p.existsWitness[*position] {
+				missing = append(missing, position)
+			}
+		}
+	}
+	return missing
+}
+
 // enqueueScheduled is the routing point for action-start nodes that the
 // scheduling code paths (scheduleAction, YieldNode's thread/channel forks,
 // scheduleChannelMessages) used to add directly to p.queue. In OLD mode it
@@ -2452,6 +2485,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	var failedInvariants map[int][]int
 	if yield {
 		failedInvariants = CheckInvariantsWithProber(node.Process, p.makeProber(node.Process))
+		if p.experimentalNoGraph {
+			p.recordWitness(node.Process)
+		}
 	}
 	if len(failedInvariants[0]) > 0 {
 		//panic(fmt.Sprintf("Invariant failed: %v", failedInvariants))
-- 
2.43.0


From 7608d53780eb35558f2482f16bcfdefb4e371dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 31/72] fix: a crash with other actions running counts for
 liveness

---
 modelchecker/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 45c84ae..feddd76 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -302,7 +302,7 @@ func CheckStrictLiveness(node *Node, nodes []*Node) ([]*Link, *InvariantPosition
 	for i, file := range process.Files {
 		for j, invariant := range file.Invariants {
 			predicate := func(n *Node) (bool, bool) {
-				return n.Process.GetThreadsCount() == 0 || n.Name == "yield", n.Process.Witness[i][j]
+				return n.Process.GetThreadsCount() == 0 || n.Name == "yield" || n.Name == "crash", n.Process.Witness[i][j]
 			}
 			eventuallyAlways := false
 			alwaysEventually := false
-- 
2.43.0


From 1b48c84d1564d7452f20b3dbc67ff2a4aaa8e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 32/72] fix: error traces through the end of a block can be
 written

---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 1ced9dd..2d8248c 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1405,6 +1405,10 @@ type CodeSnippet interface {
 }
 
 func (t *Thread) CurrentPcSourceInfo() *ast.SourceInfo {
+	if t.currentPc() == "" {
+		// at the end of a block
+		return &ast.SourceInfo{}
+	}
 	protoMsg := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
 	if protoMsg == nil {
 		return &ast.SourceInfo{}
-- 
2.43.0


From d69c88cfa1308032e635ace373492de372cef7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 33/72] fix: explore a state again when it is reached with more
 of the action limits left

---
 modelchecker/processor.go | 76 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 71 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ebfc48f..2387d03 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -70,6 +70,8 @@ type Definition struct {
 type Stats struct {
 	TotalActions int            `json:"totalActions"`
 	Counts       map[string]int `json:"counts"`
+	// limits holds the configured max_actions of the actions that have one.
+	limits map[string]int
 }
 
 // NewStats returns a new Stats object
@@ -83,6 +85,7 @@ func (s *Stats) Clone() *Stats {
 	stats := &Stats{
 		TotalActions: s.TotalActions,
 		Counts:       make(map[string]int),
+		limits:       s.limits,
 	}
 	for k, v := range s.Counts {
 		stats.Counts[k] = v
@@ -95,6 +98,32 @@ func (s *Stats) Increment(action string) {
 	s.Counts[action]++
 }
 
+// usedLimits returns how much of each limit on the executions of an action is used up. The
+// executions by the role instances in replacements count for the replacement.
+func (s *Stats) usedLimits(replacements map[string]string) (shared map[string]int, replaced map[string]int) {
+	shared, replaced = make(map[string]int), make(map[string]int)
+	if s == nil || len(s.limits) == 0 {
+		return shared, replaced
+	}
+	for action, count := range s.Counts {
+		used := min(count, s.limits[action])
+		instance, name, ok := strings.Cut(action, ".")
+		if ok {
+			role, _, _ := strings.Cut(instance, "#")
+			used = max(used, min(count, s.limits[role+"#."+name]))
+			if limit := s.limits[role+"."+name]; limit > 0 {
+				shared[role+"."+name] = min(shared[role+"."+name]+count, limit)
+			}
+		}
+		if replacement, found := replacements[instance]; found && used > 0 {
+			replaced[replacement+"."+name] = used
+		} else if used > 0 {
+			shared[action] = used
+		}
+	}
+	return shared, replaced
+}
+
 // FailedModule is a placeholder for a .star file that failed to load.
 // It satisfies starlark.HasAttrs so the error is deferred until the module
 // is actually used (attribute access), rather than aborting at load time.
@@ -1159,6 +1188,7 @@ type Processor struct {
 	Files              []*ast.File
 	queue              lib.LinearCollection[*Node]
 	visited            map[string]*Node
+	visitedLimits      map[string][]map[string]int // the limits used up by the nodes visited with a hash
 	config             *ast.StateSpaceOptions
 	stopped            bool
 	dirPath            string
@@ -1467,6 +1497,7 @@ func NewProcessorWithVisitedTracking(files []*ast.File, options *ast.StateSpaceO
 		preinitHookContent: preinitHookContent,
 
 		visitedMapTracking: visitedMapTracking,
+		visitedLimits:      make(map[string][]map[string]int),
 	}
 }
 
@@ -1477,6 +1508,12 @@ func (p *Processor) GetVisitedNodesCount() int {
 func (p *Processor) InitializeNode() (*Node, *Node, error) {
 	process := NewProcess("init", p.Files, nil)
 	process.durabilitySpec = p.durabilitySpec
+	process.Stats.limits = make(map[string]int)
+	for action, options := range p.config.GetActionOptions() {
+		if options.GetMaxActions() > 0 {
+			process.Stats.limits[action] = int(options.GetMaxActions())
+		}
+	}
 	if p.guidedTrace == nil {
 		process.guidedTrace = GuidedTrace{}
 	} else {
@@ -2738,14 +2775,40 @@ func (p *Processor) findVisitedWithProgress(node *Node, progress string) (*Node,
 	// renamed destination state would not match them. Exact-duplicate
 	// states still dedup via the plain hash.
 	if p.simulation || p.disableSymmetryReduction {
-		hash := node.HashCode() + progress
+		return p.findVisitedWithinLimits(node, node.HashCode()+progress, nil)
+	}
+	symmetric := make(map[string]string)
+	for _, role := range node.Roles {
+		if role != nil && role.IsSymmetric() {
+			symmetric[role.RefStringShort()] = role.RefStringShort()
+		}
+	}
+	hashes := node.getSymmetryTranslations()
+	return p.findVisitedWithinLimits(node, node.minHashCode(hashes)+progress, symmetric)
+}
+
+// findVisitedWithinLimits looks up a node that has the hash and has not used more of any
+// limit on the executions of an action, so that the same actions can still follow it.
+// The limits of the symmetric role instances are part of the hash.
+func (p *Processor) findVisitedWithinLimits(node *Node, hash string, symmetric map[string]string) (*Node, bool, string) {
+	if len(node.Stats.limits) == 0 {
 		other, ok := p.visited[hash]
 		return other, ok, hash
 	}
-	hashes := node.getSymmetryTranslations()
-	minHash := node.minHashCode(hashes) + progress
-	other, ok := p.visited[minHash]
-	return other, ok, minHash
+	used, _ := node.Stats.usedLimits(symmetric)
+	key := hash + fmt.Sprint(used)
+	for _, otherUsed := range p.visitedLimits[hash] {
+		other, ok := p.visited[hash+fmt.Sprint(otherUsed)]
+		exceeds := !ok
+		for action, count := range otherUsed {
+			exceeds = exceeds || count > used[action]
+		}
+		if !exceeds {
+			return other, true, key
+		}
+	}
+	p.visitedLimits[hash] = append(p.visitedLimits[hash], used)
+	return nil, false, key
 }
 
 func (p *Process) symmetricHash(permutations map[*lib.SymmetricValue][]*lib.SymmetricValue, alt int) string {
@@ -2853,6 +2916,9 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 	p.CachedThreadHashes = nil
 	p.Heap.CachedHashCode = ""
 	hash1 := p.HashCode()
+	if _, used := p.Stats.usedLimits(replacements); len(used) > 0 {
+		hash1 += fmt.Sprint(used)
+	}
 
 	// 7. Restore Everything
 	copy(p.Roles, origRoles)
-- 
2.43.0


From da749cd1915298b58a38045c9817d89b5d3f17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 34/72] fix: simulate every branch of an action that starts
 right after a crash

---
 modelchecker/processor.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 2387d03..1c5e53a 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2224,8 +2224,8 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 		if shouldClearVisited {
 			p.visited = make(map[string]*Node)
 		}
+		inCrashPath := false
 		for {
-			inCrashPath := false
 			if len(node.Inbound) > 0 {
 				if node.Inbound[0].Node.Name == "crash" {
 					if liveness && node.actionDepth > int(randMaxActions) {
@@ -2257,11 +2257,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				p.intermediateStates.ClearAll()
 				break
 			}
-			if !inCrashPath {
-				if p.intermediateStates.Len() == 0 {
-					break
-				}
+			if p.intermediateStates.Len() > 0 {
 				node, _ = p.intermediateStates.Remove()
+			} else if !inCrashPath {
+				break
 			} else {
 				hasAnotherCrashAction := false
 				var anotherCrashNode *Node
-- 
2.43.0


From a933580498a929ab19bfd30492f8359f47d775d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 35/72] fix: report a deadlock in simulation exactly where no
 alternative is enabled

---
 modelchecker/processor.go | 42 +++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1c5e53a..c04cee1 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1194,6 +1194,8 @@ type Processor struct {
 	dirPath            string
 	intermediateStates lib.LinearCollection[*Node]
 	simulation         bool
+	alternatives       map[*Node]int  // simulation: how many alternatives a yield point has left
+	notStuck           map[*Node]bool // simulation: the yield points that have a step
 	random             rand.Rand
 	Seed               int64
 	durabilitySpec     *DurabilitySpec
@@ -1438,6 +1440,9 @@ func (p *Processor) enqueueScheduled(node *Node) {
 // either mode) should go through this helper so peak tracking is accurate.
 func (p *Processor) addToProcessingQueue(node *Node) {
 	p.queue.Add(node)
+	if p.simulation && len(node.Inbound) > 0 {
+		p.alternatives[node.Inbound[0].Node]++
+	}
 	if l := p.queue.Len(); l > p.peakQueueLen {
 		p.peakQueueLen = l
 	}
@@ -1498,6 +1503,8 @@ func NewProcessorWithVisitedTracking(files []*ast.File, options *ast.StateSpaceO
 
 		visitedMapTracking: visitedMapTracking,
 		visitedLimits:      make(map[string][]map[string]int),
+		alternatives:       make(map[*Node]int),
+		notStuck:           make(map[*Node]bool),
 	}
 }
 
@@ -2187,6 +2194,7 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 		if !found {
 			panic("queue should not be empty")
 		}
+		origin := p.takeAlternative(node)
 
 		if livenessEnabled && !liveness && node.actionDepth > int(p.config.Options.MaxActions-1) {
 			//fmt.Println("Max actions reached, switching to liveness", p.config.Options.MaxActions)
@@ -2195,12 +2203,14 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			*p.config.Options.CrashOnYield = false
 		} else if (liveness || !livenessEnabled) && node.actionDepth > int(p.config.Options.MaxActions) {
 			//fmt.Println("Max actions reached", p.config.Options.MaxActions)
+			p.notStuck[origin] = true
 			continue
 		}
 		if liveness && node.actionDepth > 0 && node.actionDepth > int(randMaxActions) {
 			if node.currentThread().Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR ||
 				node.currentThread().Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN {
-				livenessNode = node
+				livenessNode = origin
+				p.notStuck[origin] = true
 				continue
 			}
 		}
@@ -2232,6 +2242,7 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 						var nonCrashNode *Node
 						for p.queue.Len() != 0 {
 							nonCrashNode, _ = p.queue.Remove()
+							origin = p.takeAlternative(nonCrashNode)
 							if nonCrashNode.Inbound[0].Node.Name == "crash" {
 								continue
 							}
@@ -2252,6 +2263,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			if invariantFailure {
 				break
 			}
+			if node.Process == nil || symmetryFound {
+				// a step to a known state
+				p.notStuck[origin] = true
+			}
 
 			if node.Process != nil && (node.Name == "yield" || node.Name == "crash") && p.simulation && (!inCrashPath || node.Enabled) {
 				p.intermediateStates.ClearAll()
@@ -2266,8 +2281,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				var anotherCrashNode *Node
 				for p.queue.Len() != 0 {
 					anotherCrashNode, _ = p.queue.Remove()
+					taken := p.takeAlternative(anotherCrashNode)
 					if anotherCrashNode.Inbound[0].Node.Name == "crash" {
 						hasAnotherCrashAction = true
+						origin = taken
 						break
 					}
 				}
@@ -2305,11 +2322,13 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 		}
 		if p.simulation && node.Process != nil && node.Name == "yield" && node.Enabled {
 			p.queue.Clear(prevLen)
+			origin = node
 		}
 
-		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && len(node.Inbound[0].Node.Outbound) == 0 {
+		// Every alternative was tried and none is enabled. Crashes do not count as steps.
+		if origin != nil && origin.actionDepth < int(p.config.Options.MaxActions) && p.alternatives[origin] == 0 && !p.notStuck[origin] {
 			if !liveness && p.config.GetDeadlockDetection() {
-				failedNode = node.Inbound[0].Node
+				failedNode = origin
 				break
 			} else if liveness && p.config.GetDeadlockDetection() {
 				// The if condition shouldn't have been required, but there is a small edge case not handled so far.
@@ -2320,7 +2339,7 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				// During liveness check since we are skipping non-fair nodes, we may end up with no next steps
 				// if this state matches all the required predicates, then it is a valid state. Otherwise, mark it as
 				// stutter state.
-				livenessNode = node
+				livenessNode = origin
 			}
 
 		}
@@ -2330,8 +2349,8 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			for j, invariant := range file.Invariants {
 				hasEventually := slices.Contains(invariant.TemporalOperators, "eventually") || invariant.Eventually
 				if hasEventually {
-					if !livenessNode.Inbound[0].Node.Process.Witness[i][j] {
-						failedNode = livenessNode.Inbound[0].Node
+					if !livenessNode.Process.Witness[i][j] {
+						failedNode = livenessNode
 						break
 					}
 
@@ -2343,6 +2362,17 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 	return p.Init, failedNode, err
 }
 
+// takeAlternative returns the yield point that an alternative taken from the queue of the
+// simulation starts from.
+func (p *Processor) takeAlternative(node *Node) *Node {
+	if len(node.Inbound) == 0 {
+		return nil
+	}
+	origin := node.Inbound[0].Node
+	p.alternatives[origin]--
+	return origin
+}
+
 func processPreInit(init *Node, stmts []*ast.Statement, preinitHookContent string) {
 	thread := init.NewThread()
 	thread.currentFrame().pc = fmt.Sprintf("Stmts[%d]", 0)
-- 
2.43.0


From 5bc757d29c3d2186959f5f91a82551f1892a3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 36/72] fix: simulations of the library have the documented
 default options

---
 pkg/modelchecker/BUILD         |  1 +
 pkg/modelchecker/simulation.go | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pkg/modelchecker/BUILD b/pkg/modelchecker/BUILD
index 41445c5..a70d80f 100644
--- a/pkg/modelchecker/BUILD
+++ b/pkg/modelchecker/BUILD
@@ -9,5 +9,6 @@ go_library(
         "//modelchecker",
         "//proto:proto_go_proto",
         "@org_golang_google_protobuf//encoding/protojson",
+        "@org_golang_google_protobuf//proto",
     ],
 )
diff --git a/pkg/modelchecker/simulation.go b/pkg/modelchecker/simulation.go
index 0c90b07..d333682 100644
--- a/pkg/modelchecker/simulation.go
+++ b/pkg/modelchecker/simulation.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/modelchecker"
 	"google.golang.org/protobuf/encoding/protojson"
+	"google.golang.org/protobuf/proto"
 )
 
 // VisitedMapTracking controls whether the visited map should track visited states
@@ -28,7 +29,8 @@ type SimulationConfig struct {
 	// PreinitHook is Starlark code to run before initialization
 	PreinitHook string
 
-	// Options for state space exploration (nil = use defaults)
+	// Options for state space exploration (nil = use defaults; unset options
+	// have the defaults of the command line)
 	Options *ast.StateSpaceOptions
 
 	// DirPath is the directory for loading modules (empty = no modules)
@@ -79,10 +81,7 @@ func RunSimulation(specData []byte, config *SimulationConfig) *SimulationResult
 	}
 
 	// Use default options if not provided
-	options := config.Options
-	if options == nil {
-		options = &ast.StateSpaceOptions{}
-	}
+	options := withDefaults(config.Options)
 
 	// Create processor for simulation mode
 	processor := modelchecker.NewProcessorWithVisitedTracking(
@@ -110,6 +109,31 @@ func RunSimulation(specData []byte, config *SimulationConfig) *SimulationResult
 	}
 }
 
+// withDefaults returns a copy of the options with the defaults of the command
+// line for the unset ones.
+func withDefaults(options *ast.StateSpaceOptions) *ast.StateSpaceOptions {
+	result := &ast.StateSpaceOptions{}
+	if options != nil {
+		proto.Merge(result, options)
+	}
+	if result.Options == nil {
+		result.Options = &ast.Options{}
+	}
+	if result.Options.MaxActions == 0 {
+		result.Options.MaxActions = 100
+	}
+	if result.Options.MaxConcurrentActions == 0 {
+		result.Options.MaxConcurrentActions = min(2, result.Options.MaxActions)
+	}
+	if result.DeadlockDetection == nil {
+		result.DeadlockDetection = proto.Bool(true)
+	}
+	if result.Options.CrashOnYield == nil {
+		result.Options.CrashOnYield = proto.Bool(true)
+	}
+	return result
+}
+
 // LoadSpecFromJSON is a convenience function to load a spec from JSON bytes
 func LoadSpecFromJSON(data []byte) (*ast.File, error) {
 	file := &ast.File{}
-- 
2.43.0


From 6822ae121845d2f96abd1187f64ce4ba5ec8bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 37/72] fix: list the arguments of a call in the same order in
 every run

---
 modelchecker/processor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index c04cee1..18d3b8e 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -913,8 +913,13 @@ func (p *Process) RecordCall(callerFrame *CallFrame, receiverFrame *CallFrame, f
 	if receiverFrame.obj != nil {
 		msg.Receivers = []string{receiverFrame.obj.RefStringShort()}
 	}
-	for name, value := range receiverFrame.vars {
-		str := strings.ReplaceAll(value.String(), lib.SymmetryPrefix, "")
+	names := make([]string, 0, len(receiverFrame.vars))
+	for name := range receiverFrame.vars {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		str := strings.ReplaceAll(receiverFrame.vars[name].String(), lib.SymmetryPrefix, "")
 		msg.Values = append(msg.Values, &ast.NameValue{Name: name, Value: str})
 	}
 	if flow != ast.Flow_FLOW_ATOMIC {
-- 
2.43.0


From c22e2d2fe8a28fd8bb303376396199d0f5e4f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 38/72] fix: draw the same communication diagram in every run

---
 modelchecker/graph.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 55d3731..8a6d751 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -1,6 +1,7 @@
 package modelchecker
 
 import (
+	"cmp"
 	"encoding/json"
 	"fizz/proto"
 	"fmt"
@@ -11,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 )
@@ -512,8 +514,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 	}
 
-	for roleName, replicated := range roleNames {
-		if replicated {
+	for _, roleName := range sortedKeys(roleNames, strings.Compare) {
+		if roleNames[roleName] {
 			// Add a html type node table to represent replicated service
 			// for example, if there are multiple instances of Participant, we will have
 			//     "Participant" [shape=none label=<
@@ -529,12 +531,15 @@ func GenerateCommunicationGraph(messages []string) string {
 			builder.WriteString("      </table>>]\n")
 		}
 	}
-	for p, m := range uniqueMessages {
+	pairs := sortedKeys(uniqueMessages, func(a, b lib.Pair[string, string]) int {
+		return cmp.Or(strings.Compare(a.First, b.First), strings.Compare(a.Second, b.Second))
+	})
+	for _, p := range pairs {
 		sender := p.First
 		receiver := p.Second
 		// Concatenate all the messages
 		label := ""
-		for message := range m {
+		for _, message := range sortedKeys(uniqueMessages[p], strings.Compare) {
 			if label != "" {
 				label += ", "
 			}
@@ -561,7 +566,9 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 	}
 
-	for receiver, actions := range uniqueActions {
+	for _, receiver := range sortedKeys(uniqueActions, strings.Compare) {
+		actions := uniqueActions[receiver]
+		actionNames := sortedKeys(actions, strings.Compare)
 		// for each receiver, add the actions
 		// - if the action is unfair add a hidden node and add an edge from the action to the receiver with action name as label
 		// - if there is at least one fair action, add a html table hidden node with one row for each action with no label and port name as action name
@@ -569,7 +576,8 @@ func GenerateCommunicationGraph(messages []string) string {
 
 		// Add a hidden node for each action
 		hasFairAction := false
-		for action, fairness := range actions {
+		for _, action := range actionNames {
+			fairness := actions[action]
 
 			if fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR {
 				actionNodeName := fmt.Sprintf("action%s%s", receiver, action)
@@ -581,7 +589,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 		if hasFairAction {
 			builder.WriteString(fmt.Sprintf("  \"FairAction%s\" [shape=none label=<<table cellpadding=\"14\" cellspacing=\"8\" style=\"invisible\"><tr>\n", receiver))
-			for action, fairness := range actions {
+			for _, action := range actionNames {
+				fairness := actions[action]
 				if !(fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR) {
 					builder.WriteString(fmt.Sprintf("      <td port=\"%s\"></td>\n", action))
 				}
@@ -589,7 +598,8 @@ func GenerateCommunicationGraph(messages []string) string {
 			builder.WriteString("      </tr></table>>]\n")
 			// Make the FairAction node at the same rank as the receiver
 			builder.WriteString(fmt.Sprintf("  { rank=same; \"%s\"; \"FairAction%s\"; }\n", receiver, receiver))
-			for action, fairness := range actions {
+			for _, action := range actionNames {
+				fairness := actions[action]
 				if !(fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR) {
 					builder.WriteString(fmt.Sprintf("  \"FairAction%s\":%s -> \"%s\" [label=\"%s\"];\n", receiver, action, receiver, action))
 				}
@@ -608,3 +618,13 @@ func ReverseLink(node *Node, link *Link) *Link {
 	tmp.Node = node
 	return &tmp
 }
+
+// sortedKeys returns the keys of m in the order of compare.
+func sortedKeys[K comparable, V any](m map[K]V, compare func(a, b K) int) []K {
+	keys := make([]K, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.SortFunc(keys, compare)
+	return keys
+}
-- 
2.43.0


From 15871493b87ff676b63590ec4ee01a0a4f8a03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 39/72] fix: constant records, bags, generic sets and maps
 can't be modified

---
 lib/starlark_types.go | 52 ++++++++++++++++++++++++++++++++++++++++++-
 lib/starlarkstruct.go |  5 +++++
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 50d6d22..7ae48cc 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -209,6 +209,9 @@ func NewGenericMap() *GenericMap {
 }
 
 func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple) error {
+	if err := dict.checkMutable(); err != nil {
+		return err
+	}
 	if len(args) == 1 {
 		arg := args[0]
 		if mapping, ok := arg.(starlark.IterableMapping); ok {
@@ -229,6 +232,14 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 type GenericMap struct {
 	// Should this simply be a slice of values instead?
 	entries []starlark.Tuple
+	frozen  bool
+}
+
+func (g *GenericMap) checkMutable() error {
+	if g.frozen {
+		return fmt.Errorf("cannot change frozen collection")
+	}
+	return nil
 }
 
 func (g *GenericMap) CompareSameType(op syntax.Token, y_ starlark.Value, depth int) (bool, error) {
@@ -307,6 +318,9 @@ func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err
 }
 
 func (g *GenericMap) SetKey(key, value starlark.Value) error {
+	if err := g.checkMutable(); err != nil {
+		return err
+	}
 	for _, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
@@ -358,6 +372,7 @@ func (g *GenericMap) Type() string {
 }
 
 func (g *GenericMap) Freeze() {
+	g.frozen = true
 	for _, entry := range g.entries {
 		entry.Freeze()
 	}
@@ -372,11 +387,17 @@ func (g *GenericMap) Hash() (uint32, error) {
 }
 
 func (g *GenericMap) Clear() error {
+	if err := g.checkMutable(); err != nil {
+		return err
+	}
 	g.entries = nil
 	return nil
 }
 
 func (g *GenericMap) Delete(k starlark.Value) (v starlark.Value, found bool, err error) {
+	if err := g.checkMutable(); err != nil {
+		return nil, false, err
+	}
 	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], k); err != nil {
 			return nil, false, fmt.Errorf("%s: %v", "genericmap", err)
@@ -468,6 +489,9 @@ func dict_popitem(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple,
 	if recv.Len() == 0 {
 		return nil, nameErr(b, "empty dict")
 	}
+	if err := recv.checkMutable(); err != nil {
+		return nil, nameErr(b, err)
+	}
 	lastIndex := len(recv.entries) - 1
 	last := recv.entries[lastIndex]
 	recv.entries = recv.entries[:lastIndex]
@@ -888,6 +912,9 @@ func set_pop(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwarg
 	if recv.Len() <= 0 {
 		return nil, nameErr(b, "empty set")
 	}
+	if err := recv.dict.checkMutable(); err != nil {
+		return nil, nameErr(b, err)
+	}
 	lastIndex := len(recv.dict.entries) - 1
 	last := recv.dict.entries[lastIndex]
 	recv.dict.entries = recv.dict.entries[:lastIndex]
@@ -973,7 +1000,8 @@ func NewBag(elems []starlark.Value) *Bag {
 }
 
 type Bag struct {
-	elems []starlark.Value
+	elems  []starlark.Value
+	frozen bool
 }
 
 func (b *Bag) Get(value starlark.Value) (v starlark.Value, found bool, err error) {
@@ -1066,7 +1094,17 @@ func (b *Bag) Type() string {
 }
 
 func (b *Bag) Freeze() {
+	b.frozen = true
+	for _, elem := range b.elems {
+		elem.Freeze()
+	}
+}
 
+func (b *Bag) checkMutable() error {
+	if b.frozen {
+		return fmt.Errorf("cannot change frozen bag")
+	}
+	return nil
 }
 
 func (b *Bag) Truth() starlark.Bool {
@@ -1087,6 +1125,9 @@ func sortAsString(entries []starlark.Value) []starlark.Value {
 }
 
 func (b *Bag) Insert(val starlark.Value) error {
+	if err := b.checkMutable(); err != nil {
+		return err
+	}
 	pos, _ := slices.BinarySearchFunc(b.elems, val, func(x, y starlark.Value) int {
 		return cmp.Compare(x.String(), y.String())
 	})
@@ -1107,6 +1148,9 @@ func (b *Bag) InsertAll(v starlark.Iterable) error {
 }
 
 func (b *Bag) Delete(k starlark.Value) (bool, error) {
+	if err := b.checkMutable(); err != nil {
+		return false, err
+	}
 	index, err := b.Find(k)
 	if err != nil || index < 0 {
 		return index >= 0, err
@@ -1133,6 +1177,9 @@ func (b *Bag) Find(k starlark.Value) (int, error) {
 }
 
 func (b *Bag) Clear() error {
+	if err := b.checkMutable(); err != nil {
+		return err
+	}
 	b.elems = nil
 	return nil
 }
@@ -1199,6 +1246,9 @@ func bag_pop(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwarg
 	if recv.Len() <= 0 {
 		return nil, nameErr(b, "empty set")
 	}
+	if err := recv.checkMutable(); err != nil {
+		return nil, nameErr(b, err)
+	}
 	lastIndex := len(recv.elems) - 1
 	last := recv.elems[lastIndex]
 	recv.elems = recv.elems[:lastIndex]
diff --git a/lib/starlarkstruct.go b/lib/starlarkstruct.go
index d6e01ae..eda1f2e 100644
--- a/lib/starlarkstruct.go
+++ b/lib/starlarkstruct.go
@@ -108,9 +108,13 @@ func (s *Struct) ReplaceEntriesFromStringDict(d starlark.StringDict) {
 type Struct struct {
 	constructor starlark.Value
 	entries     entries // sorted by name
+	frozen      bool
 }
 
 func (s *Struct) SetField(name string, val starlark.Value) error {
+	if s.frozen {
+		return fmt.Errorf("cannot set field of frozen %s", s.Type())
+	}
 	for i, e := range s.entries {
 		if e.name == name {
 			s.entries[i] = entry{name, val}
@@ -213,6 +217,7 @@ func (s *Struct) Hash() (uint32, error) {
 	return 0, fmt.Errorf("unhashable type: record")
 }
 func (s *Struct) Freeze() {
+	s.frozen = true
 	for _, e := range s.entries {
 		e.value.Freeze()
 	}
-- 
2.43.0


From c23f0ff23ccc6cc716cdfc9d843538d431353f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 40/72] fix: values returned by actions are renamed with the
 other symmetric values

---
 modelchecker/processor.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 18d3b8e..8e357d8 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -445,10 +445,9 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 	// empty map here would silently strip per-action returns from the
 	// dedup key and collapse states that differ only in what an action
 	// returned.
-	returnsCopy := make(starlark.StringDict, len(p.Returns))
-	for k, v := range p.Returns {
-		returnsCopy[k] = v
-	}
+	// The values are cloned like the rest of the state: the permutations
+	// rename the symmetric values among them as well.
+	returnsCopy := CloneDict(p.Returns, refs, permutations, alt)
 	p2 := &Process{
 		Name:      p.Name,
 		Heap:      p.Heap.Clone(refs, permutations, alt),
@@ -2933,6 +2932,16 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 		}
 	}
 
+	// The returned values are listed by the name of the action and its role
+	origReturns := p.Returns
+	p.Returns = make(starlark.StringDict, len(origReturns))
+	for name, value := range origReturns {
+		if role, action, found := strings.Cut(name, "."); found && replacements[role] != "" {
+			name = replacements[role] + "." + action
+		}
+		p.Returns[name] = value
+	}
+
 	// 5. Sort p.Roles to ensure canonical order
 	// This is necessary because p.Roles is a slice and its order affects the state representation.
 	// We sort by Name then Ref.
@@ -2956,6 +2965,7 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 
 	// 7. Restore Everything
 	copy(p.Roles, origRoles)
+	p.Returns = origReturns
 	for msg, oldReceiver := range origReceivers {
 		msg.receiver = oldReceiver
 	}
-- 
2.43.0


From 4bd786f64b552793133bc9afa14a3a38eab6923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:57 +0000
Subject: [PATCH 41/72] fix: a symmetry domain without values left disables the
 step in every statement

---
 modelchecker/thread.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 2d8248c..4bc9c1f 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -690,6 +690,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.AnyStmt.IterExpr, vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if t.disabledTransition(err) {
+			return nil, false
+		}
 		// TODO: This source info should be for the pyExpr not the anyStmt
 		t.Process.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.AnyStmt.PyExpr), err)
 		t.Process.updateAllVariablesInScope(vars)
@@ -729,6 +732,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				symCtx := fork.createSymmetryContext()
 				cond, err := fork.Evaluator.EvalExprWithContext(t.getFileName(), stmt.AnyStmt.ConditionExpr, vars, symCtx)
 				fork.saveRotationalLastAllocated(symCtx)
+				if lib.IsDisableTransitionError(err) {
+					continue
+				}
 				//PanicOnError(err)
 				// TODO: This source info should be for the condition not the anyStmt
 				fork.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error checking condition: %s", stmt.AnyStmt.Condition), err)
@@ -789,6 +795,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.ForStmt.IterExpr, vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if t.disabledTransition(err) {
+			return nil, false
+		}
 		// TODO: This source info should be for the pyExpr not the forStmt
 		t.Process.PanicOnError(stmt.ForStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.ForStmt.PyExpr), err)
 
@@ -838,6 +847,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		cond, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.RequireStmt.GetConditionExpr(), vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if t.disabledTransition(err) {
+			return nil, false
+		}
 		//PanicOnError(err)
 		t.Process.PanicOnError(stmt.RequireStmt.GetSourceInfo(), fmt.Sprintf("Error checking condition: %s", stmt.RequireStmt.Condition), err)
 		t.Process.updateAllVariablesInScope(vars)
@@ -853,6 +865,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		if stmt.ReturnStmt.PyExpr != "" {
 			symCtx := t.Process.createSymmetryContext()
 			v, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.ReturnStmt.GetExpr(), vars, symCtx)
+			t.Process.saveRotationalLastAllocated(symCtx)
+			if t.disabledTransition(err) {
+				return nil, false
+			}
 			t.Process.PanicOnError(stmt.ReturnStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.ReturnStmt.PyExpr), err)
 			//PanicOnError(err)
 			val = v
@@ -1174,6 +1190,18 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 	return forks, false
 }
 
+// disabledTransition aborts the current step if err says that a symmetry domain has no
+// value left, and reports whether it does.
+func (t *Thread) disabledTransition(err error) bool {
+	if !lib.IsDisableTransitionError(err) {
+		return false
+	}
+	t.Process.Enabled = false
+	t.Process.ThreadProgress = false
+	t.Aborted = true
+	return true
+}
+
 func (t *Thread) executeWhileStatement() ([]*Process, bool) {
 	protobuf := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
 	stmt := convertToWhileStmt(protobuf)
@@ -1185,6 +1213,9 @@ func (t *Thread) executeWhileStatement() ([]*Process, bool) {
 	symCtx := t.Process.createSymmetryContext()
 	cond, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.GetIterExpr(), vars, symCtx)
 	t.Process.saveRotationalLastAllocated(symCtx)
+	if t.disabledTransition(err) {
+		return nil, false
+	}
 	t.Process.PanicOnError(stmt.GetIterExpr().GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.PyExpr), err)
 	//PanicOnError(err)
 	t.Process.updateAllVariablesInScope(vars)
-- 
2.43.0


From f03e17cf03b22a8687ce90b4d42d280d8e4d8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:43 +0000
Subject: [PATCH 42/72] fix: fresh values in the arguments of a call differ
 from each other

---
 modelchecker/thread.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 4bc9c1f..e777b4a 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -991,10 +991,12 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 			newFrame.vars = starlark.StringDict{}
 			hasNamedArgs := false
 			vars := t.Process.GetAllVariablesNocopy()
+			// The arguments are not part of the state yet, so they share the context:
+			// fresh values differ from those of the earlier arguments.
+			symCtx := t.Process.createSymmetryContext()
 			for i, arg := range stmt.CallStmt.Args {
 				// TODO: Is it really required to GetAllVariables() for each arg?
 
-				symCtx := t.Process.createSymmetryContext()
 				val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), arg.Expr, vars, symCtx)
 				t.Process.saveRotationalLastAllocated(symCtx)
 				if err != nil {
@@ -1029,7 +1031,6 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				// handle default values
 				if _, ok := newFrame.vars[param.Name]; !ok {
 					if param.DefaultPyExpr != "" {
-						symCtx := t.Process.createSymmetryContext()
 						val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), param.DefaultExpr, vars, symCtx)
 						t.Process.saveRotationalLastAllocated(symCtx)
 						if err != nil {
-- 
2.43.0


From 86b87b5c8c31a902d2670aafb99c717429ac5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 43/72] fix: values of a materialized ordinal domain keep their
 rank among all its values

---
 modelchecker/state_visitor.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 5a2f5bd..a86961e 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -480,11 +480,11 @@ func (p *Process) cloneAndGetSymmetricValuePointers() (*Process, map[starlark.Va
 func (p *Process) getUsedSymmetricValuesFromClone() (*Process, map[starlark.Value]starlark.Value, [][]*lib.SymmetricValue) {
 	p2, refs, byPrefix := p.cloneAndGetSymmetricValuePointers()
 
-	// Build a map of materialized rotational domains from globals
+	// Build a map of materialized rotational and ordinal domains from globals
 	materializedDomains := make(map[string]*lib.SymmetryDomain)
 	for _, val := range p.Heap.globals {
 		if domain, ok := val.(*lib.SymmetryDomain); ok {
-			if domain.Materialize && domain.Kind == lib.SymmetryKindRotational {
+			if domain.Materialize && (domain.Kind == lib.SymmetryKindRotational || domain.Kind == lib.SymmetryKindOrdinal) {
 				materializedDomains[domain.Name] = domain
 			}
 		}
@@ -507,11 +507,16 @@ func (p *Process) getUsedSymmetricValuesFromClone() (*Process, map[starlark.Valu
 		prefix := def.Index(0).GetPrefix()
 		addedPrefixes[prefix] = true
 
-		// For materialized rotational domains, return the full set
+		// For materialized domains, return the full set: all its values exist,
+		// so the rank of an ordinal value does not depend on which ones are in use.
 		if domain, ok := materializedDomains[prefix]; ok {
 			fullSet := make([]*lib.SymmetricValue, domain.Limit)
 			for i := 0; i < domain.Limit; i++ {
-				fullSet[i] = lib.NewRotationalSymmetricValue(prefix, int64(i), domain.Limit)
+				if domain.Kind == lib.SymmetryKindOrdinal {
+					fullSet[i] = lib.NewSymmetricValueWithKind(prefix, int64(i), domain.Kind)
+				} else {
+					fullSet[i] = lib.NewRotationalSymmetricValue(prefix, int64(i), domain.Limit)
+				}
 			}
 			result = append(result, fullSet)
 			continue
-- 
2.43.0


From a03fc51e8f0860bf22bddf15e442bc8bc5778201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 44/72] fix: transition assertions are not checked on steps
 that the limits of symmetry domains exclude

---
 modelchecker/processor.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8e357d8..e4b937c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2474,6 +2474,15 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	// So, we might miss some invariants. However, since the yield points are
 	// determined by the statement, and we include program counter in the hash code,
 	// this may not be an issue.
+	if node.actionDepth > 0 {
+		passed, _ := CheckSymmetryConstraints(node.Process)
+		if !passed {
+			// Symmetry constraint violated (e.g., interval divergence exceeded).
+			// Prune this path silently — this is not a verification failure.
+			return false, true
+		}
+	}
+
 	if node.actionDepth > 0 {
 		// A transition goes from one yield point to the next one.
 		var failedInvariants map[int][]int
@@ -2501,15 +2510,6 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		}
 	}
 
-	if node.actionDepth > 0 {
-		passed, _ := CheckSymmetryConstraints(node.Process)
-		if !passed {
-			// Symmetry constraint violated (e.g., interval divergence exceeded).
-			// Prune this path silently — this is not a verification failure.
-			return false, true
-		}
-	}
-
 	other, found, canonicalHash := p.findVisitedWithProgress(node, progress)
 	if p.experimentalNoGraph {
 		// No-graph mode: visited stores hashes only (values are nil). Skip
-- 
2.43.0


From c9ac9c9365e602a1347ff370aaa3074b9e46c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 45/72] fix: s <= t and s < t of genericset compared in the
 wrong direction

---
 lib/starlark_types.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 7ae48cc..9f2b3bc 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -609,8 +609,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LE: // subset
-		gt, err := y.CompareSameType(syntax.GT, x, depth)
-		return !gt, err
+		return y.CompareSameType(syntax.GE, x, depth)
 	case syntax.GT: // proper superset
 		if x.Len() <= y.Len() {
 			return false, nil
@@ -619,8 +618,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LT: // proper subset
-		ge, err := y.CompareSameType(syntax.GE, x, depth)
-		return !ge, err
+		return y.CompareSameType(syntax.GT, x, depth)
 	default:
 		return false, fmt.Errorf("%s %s %s not implemented", x.Type(), op, y.Type())
 	}
-- 
2.43.0


From 97c358dd407bb7936b8901c9746717b3abdce4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 46/72] fix: a copy of a genericmap and its items() changed
 when the map was assigned to

---
 lib/starlark_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 9f2b3bc..3a98376 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -321,11 +321,12 @@ func (g *GenericMap) SetKey(key, value starlark.Value) error {
 	if err := g.checkMutable(); err != nil {
 		return err
 	}
-	for _, entry := range g.entries {
+	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
 		} else if eq {
-			entry[1] = value
+			// The entry may be shared with copies of the map and with lists of its items.
+			g.entries[i] = starlark.Tuple{entry[0], value}
 			return nil
 		}
 	}
-- 
2.43.0


From 67ae6ae86d966a6ebbcde95c318db5a42e3a726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:42 +0000
Subject: [PATCH 47/72] fix: keyword arguments of genericmap() and update()
 could give a key twice

---
 lib/starlark_types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 3a98376..a890a36 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -224,7 +224,9 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 		}
 	}
 	for _, kwarg := range kwargs {
-		dict.entries = append(dict.entries, kwarg)
+		if err := dict.SetKey(kwarg[0], kwarg[1]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 3abd3695804ee6e6b9365dc8eb35025967f3d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:50 +0000
Subject: [PATCH 48/72] fix: genericset.symmetric_difference() was wrong when
 the argument repeats an element

---
 lib/starlark_types.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index a890a36..848d596 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -787,12 +787,18 @@ func (s *GenericSet) SymmetricDifference(other starlark.Iterator) (starlark.Valu
 	diff := s.clone()
 	var x starlark.Value
 	for other.Next(&x) {
-		found, err := diff.Delete(x)
+		// the other elements may contain duplicates
+		found, err := s.Has(x)
 		if err != nil {
 			return nil, err
 		}
-		if !found {
-			diff.Insert(x)
+		if found {
+			_, err = diff.Delete(x)
+		} else {
+			err = diff.Insert(x)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 	return diff, nil
-- 
2.43.0


From a52e63b6cb859bf8073d09fc1b7290f25c9d0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:57 +0000
Subject: [PATCH 49/72] fix: bag.add_all() of the bag itself did not end

---
 lib/starlark_types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 848d596..679c5f7 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1146,7 +1146,11 @@ func (b *Bag) InsertAll(v starlark.Iterable) error {
 	iter := v.Iterate()
 	defer iter.Done()
 	var x starlark.Value
+	var elems []starlark.Value // v may be the bag itself
 	for iter.Next(&x) {
+		elems = append(elems, x)
+	}
+	for _, x := range elems {
 		if err := b.Insert(x); err != nil {
 			return err
 		}
-- 
2.43.0


From 679f4d9c8d45ff9f3100b40eabe5467007367bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 50/72] fix: equality of bags depended on an order that changes
 of the elements made stale

---
 lib/starlark_types.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 679c5f7..d0b613a 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1038,12 +1038,26 @@ func bagEqual(elems []starlark.Value, elems2 []starlark.Value, depth int) (bool,
 	if len(elems) != len(elems2) {
 		return false, nil
 	}
+	// Both are usually in the same order, but not when elements were modified
+	// after they were added.
+	matched := make([]bool, len(elems2))
 	for i, elem := range elems {
-		eq, err := starlark.EqualDepth(elem, elems2[i], depth)
-		if err != nil {
-			return false, err
+		found := false
+		for k := range elems2 {
+			j := (i + k) % len(elems2)
+			if matched[j] {
+				continue
+			}
+			eq, err := starlark.EqualDepth(elem, elems2[j], depth)
+			if err != nil {
+				return false, err
+			}
+			if eq {
+				matched[j], found = true, true
+				break
+			}
 		}
-		if !eq {
+		if !found {
 			return false, nil
 		}
 	}
-- 
2.43.0


From 382fba482593e212159786b1367d26f45a139058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 51/72] fix: bag.count() was documented but missing

---
 lib/starlark_types.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index d0b613a..51f4a95 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -84,6 +84,7 @@ var (
 
 	bagMethods = map[string]*starlark.Builtin{
 		"add":     starlark.NewBuiltin("add", bag_add),
+		"count":   starlark.NewBuiltin("count", bag_count),
 		"add_all": starlark.NewBuiltin("add_all", bag_add_all),
 		"clear":   starlark.NewBuiltin("clear", bag_clear),
 		"discard": starlark.NewBuiltin("discard", bag_discard),
@@ -1263,6 +1264,22 @@ func bag_discard(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, k
 	return starlark.None, nil
 }
 
+func bag_count(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
+	var k starlark.Value
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &k); err != nil {
+		return nil, err
+	}
+	count := 0
+	for _, elem := range b.Receiver().(*Bag).elems {
+		if eq, err := starlark.Equal(elem, k); err != nil {
+			return nil, nameErr(b, err)
+		} else if eq {
+			count++
+		}
+	}
+	return starlark.MakeInt(count), nil
+}
+
 func bag_pop(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0); err != nil {
 		return nil, err
-- 
2.43.0


From e0639b94f70686990d216b934edde63102335ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 52/72] fix: set operations called without their argument
 panicked

---
 lib/starlark_types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 51f4a95..0cad146 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -840,7 +840,7 @@ func set_clear(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwa
 func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -856,7 +856,7 @@ func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple
 func set_intersection(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -882,7 +882,7 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set_issuperset.
 func set_issuperset(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -946,7 +946,7 @@ func set_remove(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·symmetric_difference.
 func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -961,7 +961,7 @@ func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args star
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·union.
 func set_union(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &iterable); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &iterable); err != nil {
 		return nil, err
 	}
 	iter := iterable.Iterate()
-- 
2.43.0


From 2ebc9cc69e2058826cd99fd1b5d850cc91f283e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 53/72] fix: itertools.chain() always failed

---
 lib/starlark_itertools.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index bd6a24d..ddd1f9d 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -18,12 +18,15 @@ var ItertoolsModule = &starlarkstruct.Module{
 }
 
 func itertoolsChain(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
-	var iterables []starlark.Iterable
-	if err := starlark.UnpackArgs("chain", args, kwargs, "*", &iterables); err != nil {
-		return nil, err
+	if len(kwargs) > 0 {
+		return nil, fmt.Errorf("chain: unexpected keyword arguments")
 	}
 	var result []starlark.Value
-	for _, iterable := range iterables {
+	for i, arg := range args {
+		iterable, ok := arg.(starlark.Iterable)
+		if !ok {
+			return nil, fmt.Errorf("chain: argument %d is not iterable", i)
+		}
 		iter := iterable.Iterate()
 		defer iter.Done()
 		var v starlark.Value
-- 
2.43.0


From 6542eb75479fe954f13506f21bd503616768d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 54/72] fix: the tuples of itertools.product() of four or more
 iterables were wrong

---
 lib/starlark_itertools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index ddd1f9d..15feab3 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -147,7 +147,7 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 	var product func(int, []starlark.Value)
 	product = func(depth int, acc []starlark.Value) {
 		if depth == len(pools) {
-			result = append(result, starlark.Tuple(acc))
+			result = append(result, append(starlark.Tuple{}, acc...))
 			return
 		}
 		for _, val := range pools[depth] {
-- 
2.43.0


From 471233074389cb0d7c52b1f80eb8a5cd0eddc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 55/72] fix: itertools.product() ignored repeat

---
 lib/starlark_itertools.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 15feab3..ad86b03 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -123,6 +123,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 }
 
 func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
+	repeat := 1
+	if err := starlark.UnpackArgs("product", nil, kwargs, "repeat?", &repeat); err != nil {
+		return nil, err
+	}
+	if repeat < 0 {
+		return nil, fmt.Errorf("product: repeat cannot be negative")
+	}
 	iterables := make([]starlark.Iterable, len(args))
 	for i, arg := range args {
 		iter, ok := arg.(starlark.Iterable)
@@ -142,6 +149,11 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 			pools[i] = append(pools[i], v)
 		}
 	}
+	once := pools
+	pools = nil
+	for i := 0; i < repeat; i++ {
+		pools = append(pools, once...)
+	}
 
 	var result []starlark.Value
 	var product func(int, []starlark.Value)
-- 
2.43.0


From 548ab0a0922143f2dc8e39c78ff9bc9f51de5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 56/72] fix: itertools.permutations() failed without r

---
 lib/starlark_itertools.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index ad86b03..f45d7b8 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -77,8 +77,8 @@ func itertoolsCombinations(thread *starlark.Thread, fn *starlark.Builtin, args s
 
 func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	var r int
-	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r", &r); err != nil {
+	var size starlark.Value = starlark.None
+	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r?", &size); err != nil {
 		return nil, err
 	}
 
@@ -90,6 +90,12 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 		items = append(items, v)
 	}
 	n := len(items)
+	r := n
+	if size != starlark.None {
+		if err := starlark.AsInt(size, &r); err != nil {
+			return nil, fmt.Errorf("permutations: for parameter r: %v", err)
+		}
+	}
 	if r > n || r < 0 {
 		return starlark.NewList(nil), nil
 	}
-- 
2.43.0


From 385e8166139d69502c72bf3f5e153e1634a14ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:58 +0000
Subject: [PATCH 57/72] fix: itertools.combinations_with_replacement([], 0)
 gave nothing instead of the empty combination

---
 lib/starlark_itertools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index f45d7b8..9a62c22 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -191,7 +191,7 @@ func itertoolsCombinationsWithReplacement(thread *starlark.Thread, fn *starlark.
 		items = append(items, v)
 	}
 	n := len(items)
-	if r < 0 || n == 0 {
+	if r < 0 {
 		return starlark.NewList(nil), nil
 	}
 
-- 
2.43.0


From 78f5313b9d45833aa358d8ccfbf779e80c0ed3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 58/72] fix: sum() did not take start as a keyword

---
 lib/starlark_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 0cad146..2449a5f 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -99,7 +99,7 @@ var (
 func builtinSum(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
 	start := starlark.Value(starlark.MakeInt(0))
-	if err := starlark.UnpackPositionalArgs("sum", args, kwargs, 1, &iterable, &start); err != nil {
+	if err := starlark.UnpackArgs("sum", args, kwargs, "iterable", &iterable, "start?", &start); err != nil {
 		return nil, err
 	}
 	switch start.(type) {
-- 
2.43.0


From 93155b242f92ab32010ae7baac57a017ed381f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 59/72] fix: Empty() of queues and stacks did not end

---
 lib/queue.go | 2 +-
 lib/stack.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/queue.go b/lib/queue.go
index 328a328..7f0b656 100644
--- a/lib/queue.go
+++ b/lib/queue.go
@@ -47,7 +47,7 @@ func (q *Queue[T]) Len() int {
 }
 
 func (q *Queue[T]) Empty() bool {
-    return q.Empty()
+    return q.Len() == 0
 }
 
 func NewQueue[T any]() *Queue[T] {
diff --git a/lib/stack.go b/lib/stack.go
index 9972469..a21a701 100644
--- a/lib/stack.go
+++ b/lib/stack.go
@@ -39,7 +39,7 @@ func (s *Stack[T]) ClearAll() {
 }
 
 func (s *Stack[T]) Empty() bool {
-	return s.Empty()
+	return s.Len() == 0
 }
 
 func NewStack[T any]() *Stack[T] {
-- 
2.43.0


From 3e146124bf4b6dae3bc222aac63286fe8564dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:29 +0000
Subject: [PATCH 60/72] fix: comparing two results of symmetric_values()
 panicked

---
 lib/starlark_types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 2449a5f..40848d8 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -135,6 +135,10 @@ type SymmetricValues struct {
 func (s SymmetricValues) Index(i int) *SymmetricValue { return s.Tuple.Index(i).(*SymmetricValue) }
 func (s SymmetricValues) Type() string                { return "symmetric_values" }
 
+func (s SymmetricValues) CompareSameType(op syntax.Token, y starlark.Value, depth int) (bool, error) {
+	return s.Tuple.CompareSameType(op, y.(SymmetricValues).Tuple, depth)
+}
+
 func MakeSymmetricValues(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	prefix := ""
 	var countValue starlark.Value
-- 
2.43.0


From f308f6818e037d5fb69b8112bf553a5229d1dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:27 +0000
Subject: [PATCH 61/72] fix: the Go test plugin reported the actions after an
 unimplemented one as done without running them

---
 mbt/lib/go/plugin_service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index d11e3d9..77e9e3a 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -161,7 +161,7 @@ func (s *FizzBeeMbtPluginServer) ExecuteActionSequences(
 	}
 
 	// Step 2: Execute
-	if err = s.executeSequencesConcurrent(allBundles); err != nil && !errors.Is(err, ErrNotImplemented) {
+	if err = s.executeSequencesConcurrent(allBundles); err != nil {
 		return nil, err
 	}
 
@@ -210,7 +210,8 @@ func (s *FizzBeeMbtPluginServer) executeSequencesSequential(
 
 func (s *FizzBeeMbtPluginServer) executeSequence(cmds []*ExecuteActionCommand, seqIdx int) error {
 	for actIdx, cmd := range cmds {
-		if err := s.executeCommand(cmd); err != nil {
+		// An action that is not implemented is skipped, the rest of the sequence runs.
+		if err := s.executeCommand(cmd); err != nil && !errors.Is(err, ErrNotImplemented) {
 			return fmt.Errorf(
 				"execution failed: sequence index %d, action index %d: %w",
 				seqIdx, actIdx, err,
-- 
2.43.0


From 093fc5630594b420d2d2412779c1d6b62daa17cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 62/72] fix: an action missing from the registry of the Go test
 plugin panicked

---
 mbt/lib/go/plugin_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index 77e9e3a..e087f5e 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -309,6 +309,9 @@ func (s *FizzBeeMbtPluginServer) newCommand(req *pb.ExecuteActionRequest) (*Exec
 			return nil, fmt.Errorf("failed to get role %s: %v", roleName, err)
 		}
 	}
+	if action == nil {
+		return nil, fmt.Errorf("action %s not found for role %q", actionName, roleName)
+	}
 	args := fromProtoArgsToLibArgs(req.GetArgs())
 	command := &ExecuteActionCommand{
 		Req:        req,
-- 
2.43.0


From b3168b6aecaadd1576208cc18a2a30ce0ed294fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:37 +0000
Subject: [PATCH 63/72] fix: unsigned integers panicked in the Go test plugin

---
 mbt/lib/go/plugin_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index e087f5e..1921f0e 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -499,8 +499,10 @@ func fromAnyToProtoValue(value any) *pb.Value {
 	switch rv.Kind() {
 	case reflect.String:
 		return &pb.Value{Kind: &pb.Value_StrValue{StrValue: rv.String()}}
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: rv.Int()}}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: int64(rv.Uint())}}
 	case reflect.Bool:
 		return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: rv.Bool()}}
 	case reflect.Map:
-- 
2.43.0


From 1b4710397374554d07ffa04895f5269373f485e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:42 +0000
Subject: [PATCH 64/72] fix: flags of the Go test plugin were ignored unless
 the options named them

---
 mbt/lib/go/plugin.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mbt/lib/go/plugin.go b/mbt/lib/go/plugin.go
index 95bbb2c..5a0e603 100644
--- a/mbt/lib/go/plugin.go
+++ b/mbt/lib/go/plugin.go
@@ -99,13 +99,20 @@ func RunTests(t *testing.T, m Model, actionsRegistry map[string]map[string]Actio
 	cmd := exec.CommandContext(ctx, runnerCmd)
 	// append plugin address
 	cmd.Args = append(cmd.Args, fmt.Sprintf("--plugin-addr=%s", socketPath))
+	// Flags win over the options, whether or not the options name them.
+	flagOptions := map[string]int{
+		"max-actions":       maxActionsFlag,
+		"max-seq-runs":      maxSeqRunsFlag,
+		"max-parallel-runs": maxParallelRunsFlag,
+	}
+	for optionName, flagValue := range flagOptions {
+		if flagValue >= 0 {
+			cmd.Args = append(cmd.Args, fmt.Sprintf("--%s=%d", optionName, flagValue))
+		}
+	}
 	for optionName, optionValue := range options {
-		if optionName == "max-actions" && maxActionsFlag >= 0 {
-			optionValue = maxActionsFlag
-		} else if optionName == "max-seq-runs" && maxSeqRunsFlag >= 0 {
-			optionValue = maxSeqRunsFlag
-		} else if optionName == "max-parallel-runs" && maxParallelRunsFlag >= 0 {
-			optionValue = maxParallelRunsFlag
+		if flagValue, ok := flagOptions[optionName]; ok && flagValue >= 0 {
+			continue
 		}
 		cmd.Args = append(cmd.Args, fmt.Sprintf("--%s=%v", optionName, optionValue))
 	}
-- 
2.43.0


From 0b050060cfe82469a557d7b31fee466687a7c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 65/72] fix: a dict with tuples as keys panicked in the Go test
 plugin

---
 mbt/lib/go/plugin_service.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index 1921f0e..58fd1c3 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -468,7 +468,7 @@ func fromProtoValueToAny(protoValue *pb.Value) any {
 		for _, entry := range v.MapValue.Entries {
 			key := fromProtoValueToAny(entry.Key)
 			val := fromProtoValueToAny(entry.Value)
-			mapValue[key] = val
+			mapValue[hashable(key)] = val
 		}
 		return mapValue
 	case *pb.Value_ListValue:
@@ -482,6 +482,22 @@ func fromProtoValueToAny(protoValue *pb.Value) any {
 	}
 }
 
+// hashable turns a list, the key of a map for a tuple in the spec, into an array:
+// a slice cannot be the key of a map.
+func hashable(key any) any {
+	list, ok := key.([]any)
+	if !ok {
+		return key
+	}
+	array := reflect.New(reflect.ArrayOf(len(list), reflect.TypeFor[any]())).Elem()
+	for i, item := range list {
+		if item = hashable(item); item != nil {
+			array.Index(i).Set(reflect.ValueOf(item))
+		}
+	}
+	return array.Interface()
+}
+
 func fromAnyToProtoValue(value any) *pb.Value {
 	// Handle Sentinel type FIRST (before reflection)
 	if sentinel, ok := value.(Sentinel); ok {
-- 
2.43.0


From 976fcb0b0225171857de58f51da98b52cbd1f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 66/72] fix: a violated transition assertion of a composition
 panicked

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 65e069d..81d3750 100644
--- a/main.go
+++ b/main.go
@@ -1254,11 +1254,11 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 
 	// Virtual merge node for FROM
 	mergedFromID := "\"composite_before\""
-	addCompositeNode(builder, mergedFromID, lastFromNodeIDs)
+	addCompositeNode(&builder, mergedFromID, lastFromNodeIDs)
 
 	// Virtual merge node for TO
 	mergedToID := "\"composite_after\""
-	addCompositeNode(builder, mergedToID, lastToNodeIDs)
+	addCompositeNode(&builder, mergedToID, lastToNodeIDs)
 	builder.WriteString(fmt.Sprintf("  %s -> %s [style=dashed, color=red];\n", mergedFromID, mergedToID))
 	builder.WriteString("}\n")
 	dotStr := builder.String()
@@ -1268,7 +1268,7 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 	}
 }
 
-func addCompositeNode(builder strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
+func addCompositeNode(builder *strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
 	builder.WriteString(fmt.Sprintf("  %s [label=\"Composite before\", shape=doubleoctagon, style=filled, fillcolor=orange];\n", mergedFromID))
 	for _, id := range lastFromNodeIDs {
 		builder.WriteString(fmt.Sprintf("  %s -> %s [arrowhead=none, style=dashed, color=gray];\n", id, mergedFromID))
-- 
2.43.0


From a596ec4a04d01454c8bf334df55656d70bf57abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 67/72] fix: compositions missed initial states and steps
 through shared intermediate states

---
 main.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/main.go b/main.go
index 81d3750..81a17f9 100644
--- a/main.go
+++ b/main.go
@@ -172,6 +172,7 @@ func runCompositionalModelChecking(f *ast.File, dirPath string, outDir string) {
 	// key is the hash, value is the list of (list of Nodes)
 	joinHashes := make(modelchecker.JoinHashes)
 	for i, spec := range f.Composition.GetSpecs() {
+	initial := make([]map[*modelchecker.Node]bool, 0, len(f.Composition.GetSpecs()))
 		fmt.Printf("\nComposed Spec: %s\n", spec.Name)
 		fileRef, fnRef, err := ParseFunctionRef(spec.Expr.GetPyExpr())
 		if err != nil {
@@ -212,10 +213,10 @@ func runCompositionalModelChecking(f *ast.File, dirPath string, outDir string) {
 		}
 		roots[spec.Name] = root
 		rootsList[i] = root
-		populateJoinHashes(joinHashes, i, root, fileRef, fnRef)
+		initial = append(initial, populateJoinHashes(joinHashes, i, root, fileRef, fnRef))
 	}
 
-	err := ComposeTransitions(f, joinHashes, rootsList, outDir)
+	err := ComposeTransitions(f, joinHashes, rootsList, initial, outDir)
 	if err != nil {
 		fmt.Println("Error composing transitions:", err)
 		return
@@ -373,7 +374,7 @@ func cartesianProduct(sets []modelchecker.TransitionSet, handler func(ts []lib.P
 	return failedNode, failedTransition
 }
 
-func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots []*modelchecker.Node, outDir string) error {
+func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots []*modelchecker.Node, initial []map[*modelchecker.Node]bool, outDir string) error {
 	hasTransitionInvariant := false
 	for _, invariant := range f.Invariants {
 		if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
@@ -388,15 +389,20 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 
 		failedNode, failedTransition := cartesianProduct(sets, func(ts []lib.Pair[*modelchecker.Node, *modelchecker.Node]) (*ComposedNode, *ComposedTransition) {
 			// Check if all transitions are stuttering
-			allStuttering := true
+			allStuttering, allInitial := true, true
+			for i, t := range ts {
+				allInitial = allInitial && t.First == t.Second && initial[i][t.First]
+			}
 			for _, t := range ts {
 				if t.First.Heap.HashCode() != t.Second.Heap.HashCode() {
 					allStuttering = false
 					break
 				}
 			}
-			if allStuttering {
-				return nil, nil // Skip all-stuttering transitions
+			if allStuttering && !allInitial {
+				// Skip all-stuttering transitions, but the initial states have to
+				// satisfy the invariants as well.
+				return nil, nil
 			}
 			composedFrom := make(map[string]*modelchecker.Heap)
 			composedTo := make(map[string]*modelchecker.Heap)
@@ -424,7 +430,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 				processTo.FailedInvariants = failedInvariants
 				return to, nil
 			}
-			if hasTransitionInvariant {
+			if hasTransitionInvariant && !allStuttering {
 				processFrom := modelchecker.NewProcess("yield", []*ast.File{f}, nil)
 				processFrom.Enable()
 				processFrom.Heap = modelchecker.NewComposedHeap(composedFrom)
@@ -497,24 +503,33 @@ func ParseFunctionRef(input string) (string, string, error) {
 	}
 }
 
-func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelchecker.Node, fileRef string, fnRef string) {
-	visited := make(map[*modelchecker.Node]bool)
+// populateJoinHashes adds the transitions of a spec, and returns its initial states.
+func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelchecker.Node, fileRef string, fnRef string) map[*modelchecker.Node]bool {
+	initial := make(map[*modelchecker.Node]bool)
+	// A node between two yield points can be reached from several of them, and
+	// each has its own transitions through it.
+	visited := make(map[modelchecker.Transition]bool)
 
 	var dfs func(from *modelchecker.Node, current *modelchecker.Node)
 	dfs = func(from *modelchecker.Node, current *modelchecker.Node) {
 
-		if from != nil && current.IsYieldNode() {
-			addToJoinHashes(joinHashes, i, from, current, fnRef)
+		if current.IsYieldNode() {
+			if from != nil {
+				addToJoinHashes(joinHashes, i, from, current, fnRef)
+			} else {
+				initial[current] = true
+			}
+			from = current // update 'from' for child traversal
 		}
-		if visited[current] {
+		step := lib.NewPair(from, current)
+		if visited[step] {
 			return
 		}
-		visited[current] = true
+		visited[step] = true
 
 		if current.IsYieldNode() {
 			// Add stuttering (to, to) link for new Nodes discovered
 			addToJoinHashes(joinHashes, i, current, current, fnRef)
-			from = current // update 'from' for child traversal
 		}
 
 		for _, child := range current.Outbound {
@@ -538,6 +553,7 @@ func addToJoinHashes(joinHashes modelchecker.JoinHashes, i int, from, to *modelc
 		joinHashes[key] = make([]modelchecker.TransitionSet, i+1)
 	}
 	for len(joinHashes[key]) <= i {
+	return initial
 		joinHashes[key] = append(joinHashes[key], make(modelchecker.TransitionSet))
 	}
 	if joinHashes[key][i] == nil {
-- 
2.43.0


From fa63ce62f30ac08ed594991ff73c46042dbf125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 68/72] fix: a step of one spec only ended a composition at a
 random point

---
 main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 81a17f9..4f6f96e 100644
--- a/main.go
+++ b/main.go
@@ -383,8 +383,10 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 		}
 	}
 	for key, sets := range joinHashes {
-		if len(sets) < 2 {
-			return fmt.Errorf("need at least 2 transition sets for key %s", key)
+		if len(sets) < len(roots) {
+			// At least one of the specs has no such transition, so there is no
+			// composed transition.
+			continue
 		}
 
 		failedNode, failedTransition := cartesianProduct(sets, func(ts []lib.Pair[*modelchecker.Node, *modelchecker.Node]) (*ComposedNode, *ComposedTransition) {
@@ -393,6 +395,9 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			for i, t := range ts {
 				allInitial = allInitial && t.First == t.Second && initial[i][t.First]
 			}
+	if len(roots) < 2 {
+		return fmt.Errorf("need at least 2 specs to compose, found %d", len(roots))
+	}
 			for _, t := range ts {
 				if t.First.Heap.HashCode() != t.Second.Heap.HashCode() {
 					allStuttering = false
@@ -548,12 +553,12 @@ func addToJoinHashes(joinHashes modelchecker.JoinHashes, i int, from, to *modelc
 	toState := modelchecker.ExecFunction(to.Process.CloneForAssert(nil, 0), fnName).String()
 
 	key := modelchecker.HashKey(fromState + "," + toState)
+	return initial
 
 	if _, exists := joinHashes[key]; !exists {
 		joinHashes[key] = make([]modelchecker.TransitionSet, i+1)
 	}
 	for len(joinHashes[key]) <= i {
-	return initial
 		joinHashes[key] = append(joinHashes[key], make(modelchecker.TransitionSet))
 	}
 	if joinHashes[key][i] == nil {
-- 
2.43.0


From a775cdbe43fdbc64f27cf44dcd328ef08d8ae049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 69/72] fix: compositions and refinements without a graph
 panicked

---
 main.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 4f6f96e..6c2ddb1 100644
--- a/main.go
+++ b/main.go
@@ -166,13 +166,17 @@ func runCompositionalModelChecking(f *ast.File, dirPath string, outDir string) {
 		fmt.Println("Simulation mode not supported for composition")
 		return
 	}
+	if experimentalNoGraph {
+		fmt.Println("--experimental_no_graph not supported for composition: it compares the state graphs of the specs")
+		return
+	}
 	roots := make(map[string]*modelchecker.Node)
 	rootsList := make([]*modelchecker.Node, len(f.Composition.GetSpecs()))
+	initial := make([]map[*modelchecker.Node]bool, 0, len(f.Composition.GetSpecs()))
 	// create a map to store the interface preserving states
 	// key is the hash, value is the list of (list of Nodes)
 	joinHashes := make(modelchecker.JoinHashes)
 	for i, spec := range f.Composition.GetSpecs() {
-	initial := make([]map[*modelchecker.Node]bool, 0, len(f.Composition.GetSpecs()))
 		fmt.Printf("\nComposed Spec: %s\n", spec.Name)
 		fileRef, fnRef, err := ParseFunctionRef(spec.Expr.GetPyExpr())
 		if err != nil {
@@ -229,6 +233,10 @@ func runRefinementModelChecking(f *ast.File, dirPath string, outDir string, json
 		fmt.Println("Simulation mode not supported for refinement")
 		return
 	}
+	if experimentalNoGraph {
+		fmt.Println("--experimental_no_graph not supported for refinement: it compares the state graphs of the specs")
+		return
+	}
 
 	if len(f.Refinements) == 0 {
 		fmt.Println("No refinement specification found")
@@ -382,6 +390,9 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			break
 		}
 	}
+	if len(roots) < 2 {
+		return fmt.Errorf("need at least 2 specs to compose, found %d", len(roots))
+	}
 	for key, sets := range joinHashes {
 		if len(sets) < len(roots) {
 			// At least one of the specs has no such transition, so there is no
@@ -395,9 +406,6 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			for i, t := range ts {
 				allInitial = allInitial && t.First == t.Second && initial[i][t.First]
 			}
-	if len(roots) < 2 {
-		return fmt.Errorf("need at least 2 specs to compose, found %d", len(roots))
-	}
 			for _, t := range ts {
 				if t.First.Heap.HashCode() != t.Second.Heap.HashCode() {
 					allStuttering = false
@@ -545,6 +553,7 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 	}
 
 	dfs(nil, root)
+	return initial
 }
 
 func addToJoinHashes(joinHashes modelchecker.JoinHashes, i int, from, to *modelchecker.Node, fnName string) {
@@ -553,7 +562,6 @@ func addToJoinHashes(joinHashes modelchecker.JoinHashes, i int, from, to *modelc
 	toState := modelchecker.ExecFunction(to.Process.CloneForAssert(nil, 0), fnName).String()
 
 	key := modelchecker.HashKey(fromState + "," + toState)
-	return initial
 
 	if _, exists := joinHashes[key]; !exists {
 		joinHashes[key] = make([]modelchecker.TransitionSet, i+1)
-- 
2.43.0


From 3eb27caa3823a71d119651adfc8ee0fc61365290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 70/72] fix: equal interface values of composed specs differed
 by the order of their elements

---
 main.go                           |  7 +++---
 modelchecker/composition_types.go | 40 ++++++++++++++++++++++++++++++-
 modelchecker/invariants.go        |  7 +++---
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/main.go b/main.go
index 6c2ddb1..faed1b1 100644
--- a/main.go
+++ b/main.go
@@ -558,10 +558,9 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 
 func addToJoinHashes(joinHashes modelchecker.JoinHashes, i int, from, to *modelchecker.Node, fnName string) {
 	//fmt.Println("Adding to join hashes:", from.Heap.String(), "->", to.Heap.String(), "for function", fnName)
-	fromState := modelchecker.ExecFunction(from.Process.CloneForAssert(nil, 0), fnName).String()
-	toState := modelchecker.ExecFunction(to.Process.CloneForAssert(nil, 0), fnName).String()
-
-	key := modelchecker.HashKey(fromState + "," + toState)
+	key := modelchecker.NewHashKey(
+		modelchecker.ExecFunction(from.Process.CloneForAssert(nil, 0), fnName),
+		modelchecker.ExecFunction(to.Process.CloneForAssert(nil, 0), fnName))
 
 	if _, exists := joinHashes[key]; !exists {
 		joinHashes[key] = make([]modelchecker.TransitionSet, i+1)
diff --git a/modelchecker/composition_types.go b/modelchecker/composition_types.go
index 764e18f..09f6cf5 100644
--- a/modelchecker/composition_types.go
+++ b/modelchecker/composition_types.go
@@ -1,9 +1,47 @@
 package modelchecker
 
-import "github.com/fizzbee-io/fizzbee/lib"
+import (
+	"slices"
+	"strings"
+
+	"github.com/fizzbee-io/fizzbee/lib"
+	"go.starlark.net/starlark"
+)
 
 type HashKey string
 
+// NewHashKey is the key of the transition between two interface values.
+func NewHashKey(from, to starlark.Value) HashKey {
+	return HashKey(interfaceString(from) + "," + interfaceString(to))
+}
+
+// interfaceString renders a value such that equal values look the same: the
+// elements of sets and the entries of dicts are in the order of their renderings
+// and not in the order in which they were added.
+func interfaceString(v starlark.Value) string {
+	var elems []string
+	switch v.Type() {
+	case "list", "tuple", "set", "genericset", "bag":
+		iter := starlark.Iterate(v)
+		defer iter.Done()
+		var x starlark.Value
+		for iter.Next(&x) {
+			elems = append(elems, interfaceString(x))
+		}
+		if v.Type() != "list" && v.Type() != "tuple" {
+			slices.Sort(elems)
+		}
+	case "dict", "genericmap":
+		for _, item := range v.(starlark.IterableMapping).Items() {
+			elems = append(elems, interfaceString(item[0])+": "+interfaceString(item[1]))
+		}
+		slices.Sort(elems)
+	default:
+		return v.String()
+	}
+	return v.Type() + "(" + strings.Join(elems, ", ") + ")"
+}
+
 type Transition = lib.Pair[*Node, *Node]
 
 // type NodeSet map[*modelchecker.Node]bool
diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index feddd76..ebe93bd 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -39,10 +39,9 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 			break
 		}
 	}
-	fromState := ExecFunction(process.Parent.CloneForAssert(nil, 0), fnName).String()
-	toState := ExecFunction(process.CloneForAssert(nil, 0), fnName).String()
-
-	key := HashKey(fromState + "," + toState)
+	key := NewHashKey(
+		ExecFunction(process.Parent.CloneForAssert(nil, 0), fnName),
+		ExecFunction(process.CloneForAssert(nil, 0), fnName))
 
 	if _, exists := joinHashes[key]; !exists {
 		fmt.Println("Join hash not found for key:", key)
-- 
2.43.0


From 1c1db27dc0aa729152f3fd30c9381f008bcb7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:04 +0000
Subject: [PATCH 71/72] fix: refinement was checked at intermediate points of a
 step and not for merged ones

---
 modelchecker/invariants.go | 7 ++++---
 modelchecker/processor.go  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index ebe93bd..7e180c5 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -26,10 +26,11 @@ func NewInvariantPosition(fileIndex, invariantIndex int) *InvariantPosition {
 }
 
 func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes JoinHashes) bool {
-	if process.Parent == nil {
+	start := stepStart(process)
+	if start == nil {
 		return true
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	if process.Heap.CachedHashCode == start.Heap.CachedHashCode && start.Heap.CachedHashCode != "" {
 		return true
 	}
 	fnName := ""
@@ -40,7 +41,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 		}
 	}
 	key := NewHashKey(
-		ExecFunction(process.Parent.CloneForAssert(nil, 0), fnName),
+		ExecFunction(start.CloneForAssert(nil, 0), fnName),
 		ExecFunction(process.CloneForAssert(nil, 0), fnName))
 
 	if _, exists := joinHashes[key]; !exists {
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index e4b937c..9380b4f 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2502,7 +2502,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 				return true, false
 			}
 		}
-		if len(node.Process.Files[0].Refinements) > 0 {
+		if yield && len(node.Process.Files[0].Refinements) > 0 {
 			result := CheckRefinement(node.Process, p.Files[0].Refinements[0], p.hashes)
 			if !result {
 				return true, false
@@ -2626,7 +2626,7 @@ func (p *Processor) stepProgress(process *Process, yield bool) string {
 	// does deadlock detection without a graph, where a merged unfinished step
 	// does not tell whether it can finish.
 	if start := stepStart(process); start != nil &&
-		(HasTransitionInvariants(process.Files[0]) || p.experimentalNoGraph && p.config.GetDeadlockDetection()) {
+		(HasTransitionInvariants(process.Files[0]) || len(process.Files[0].Refinements) > 0 || p.experimentalNoGraph && p.config.GetDeadlockDetection()) {
 		progress += "|from=" + start.HashCode()
 	}
 	return progress
-- 
2.43.0


From b6eb3afcfe61f27205a8ed07ece318bca40d6543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:04 +0000
Subject: [PATCH 72/72] fix: a refinement of several specs was accepted when
 one of them had the step

---
 modelchecker/invariants.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 7e180c5..ec0261d 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -44,9 +44,16 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 		ExecFunction(start.CloneForAssert(nil, 0), fnName),
 		ExecFunction(process.CloneForAssert(nil, 0), fnName))
 
-	if _, exists := joinHashes[key]; !exists {
-		fmt.Println("Join hash not found for key:", key)
-		return false
+	// Every refined spec has to have such a transition.
+	sets := joinHashes[key]
+	for i, entry := range refinement.GetSpecs() {
+		if entry.GetName() == "_" {
+			continue
+		}
+		if i >= len(sets) || len(sets[i]) == 0 {
+			fmt.Println("Join hash not found for key:", key)
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0

