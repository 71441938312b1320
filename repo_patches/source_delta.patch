From 1633cdada773958ff2e550c9c15a255ace2bec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 01/20] fix: flush pending headless diagnostics before
 reporting a linter failure

The goroutine that writes diagnostics may still be running when the linter
fails. Wait for it before the error message is written, so that frames are not
interleaved on stdout and diagnostics already reported are not lost.
---
 cmd/tsgolint/headless.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..0478855 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -450,14 +450,14 @@ func runHeadless(args []string) int {
 	})
 
 	close(diagnosticsChan)
+	wg.Wait()
+
 	if err != nil {
 		log.Printf("ERROR: Linter failed: %v", err)
 		writeErrorMessage(fmt.Sprintf("error running linter: %v", err))
 		return 1
 	}
 
-	wg.Wait()
-
 	if opts.debugTimings {
 		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
 			log.Printf("ERROR: failed to write timing output: %v", err)
-- 
2.43.0


From 9dbc2db682398c55eb0066be3b548a9d06ab7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 02/20] fix: do not drop headless messages that quote invalid
 UTF-8

Marshalling fails for strings that aren't valid UTF-8, so a diagnostic whose
message or fix quotes such source text was silently lost.
---
 cmd/tsgolint/headless.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 0478855..737dae9 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -13,6 +13,7 @@ import (
 	"sync"
 
 	"github.com/go-json-experiment/json"
+	"github.com/go-json-experiment/json/jsontext"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/bundled"
@@ -193,7 +194,8 @@ func internalToAny(d diagnostic.Internal) anyDiagnostic {
 }
 
 func writeMessage(w io.Writer, messageType headlessMessageType, payload any) error {
-	payloadBytes, err := json.Marshal(payload)
+	// Messages and fixes may quote source text that isn't valid UTF-8.
+	payloadBytes, err := json.Marshal(payload, jsontext.AllowInvalidUTF8(true))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4640075399060668e80ba0b63a7d8394ce45ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 03/20] fix: visit property names of destructuring assignment
 patterns

Rules were not run on the names of the properties of an object literal that
is the target of a destructuring assignment, so that problems in computed
names went unreported.
---
 internal/linter/linter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 1e3a6fd..03af95d 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -426,6 +426,7 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 		case ast.KindSpreadElement, ast.KindSpreadAssignment:
 			patternVisitor(node.Expression())
 		case ast.KindPropertyAssignment:
+			childVisitor(node.Name())
 			patternVisitor(node.Initializer())
 		default:
 			node.ForEachChild(childVisitor)
-- 
2.43.0


From 1d67b7b348448c5fe8fc70129000ee94e381e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 04/20] fix: treat nested and for-of destructuring targets as
 patterns

The target of a destructuring default ([[...a] = []] = x) and the target of
for (pattern of x) were announced to rules as array and object literals, which
made rules report them as values.
---
 internal/linter/linter.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 03af95d..92e3ad9 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -429,7 +429,14 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			childVisitor(node.Name())
 			patternVisitor(node.Initializer())
 		default:
-			node.ForEachChild(childVisitor)
+			if ast.IsAssignmentExpression(node, true) {
+				expr := node.AsBinaryExpression()
+				patternVisitor(expr.Left)
+				childVisitor(expr.OperatorToken)
+				childVisitor(expr.Right)
+			} else {
+				node.ForEachChild(childVisitor)
+			}
 		}
 
 		runListeners(rule.ListenerOnExit(kind), node)
@@ -444,6 +451,16 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			runListeners(kind, node)
 			node.ForEachChild(childVisitor)
 			runListeners(rule.ListenerOnExit(kind), node)
+		case ast.KindForInStatement, ast.KindForOfStatement:
+			initializer := node.Initializer()
+			node.ForEachChild(func(child *ast.Node) bool {
+				if child == initializer && !ast.IsVariableDeclarationList(child) {
+					patternVisitor(child)
+				} else {
+					childVisitor(child)
+				}
+				return false
+			})
 		default:
 			if ast.IsAssignmentExpression(node, true) {
 				expr := node.AsBinaryExpression()
-- 
2.43.0


From 9f3b0930e1fd2aee53fafe41551966fbd3851205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 05/20] fix: do not grow directory listings shared by the base
 file system

---
 internal/utils/overlay_vfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/utils/overlay_vfs.go b/internal/utils/overlay_vfs.go
index 1464a4b..c76853e 100644
--- a/internal/utils/overlay_vfs.go
+++ b/internal/utils/overlay_vfs.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"io/fs"
+	"slices"
 	"strings"
 	"time"
 
@@ -52,6 +53,9 @@ func (vfs *OverlayVFS) DirectoryExists(path string) bool {
 
 func (vfs *OverlayVFS) GetAccessibleEntries(path string) (result vfs.Entries) {
 	result = vfs.fs.GetAccessibleEntries(path)
+	// The listing may be shared (e.g. by a cached file system), never grow it in place.
+	result.Files = slices.Clip(result.Files)
+	result.Directories = slices.Clip(result.Directories)
 
 	normalizedPath := tspath.NormalizePath(path)
 	if !strings.HasSuffix(normalizedPath, "/") {
-- 
2.43.0


From 5a7924acba5569d6d4d5155b1e15c1335756146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 06/20] fix: print diagnostics whatever line breaks, blank
 lines and characters the code has

---
 cmd/tsgolint/main.go | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/cmd/tsgolint/main.go b/cmd/tsgolint/main.go
index 4429b31..8bfc086 100644
--- a/cmd/tsgolint/main.go
+++ b/cmd/tsgolint/main.go
@@ -244,9 +244,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	codeboxStartLine := max(diagnosticStartLine-1, 0)
 	codeboxEndLine := min(diagnosticEndline+1, len(lineMap)-1)
 
-	codeboxStart := scanner.GetECMAPositionOfLineAndUTF16Character(d.SourceFile, codeboxStartLine, 0)
-	codeboxEnd := scanner.GetECMAEndLinePosition(d.SourceFile, codeboxEndLine) + 1
-
 	w.Write([]byte{' ', 0x1b, '[', '7', 'm', 0x1b, '[', '1', 'm', 0x1b, '[', '3', '8', ';', '5', ';', '3', '7', 'm', ' '})
 	w.WriteString(d.RuleName)
 	w.WriteString(" \x1b[0m — ")
@@ -271,9 +268,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	w.WriteString("\x1b[0m \x1b[2m)─────\x1b[0m\n")
 
 	indentSize := math.MaxInt
-	line := codeboxStartLine
-	lineIndentCalculated := false
-	lastNonSpaceIndex := -1
 
 	lineStarts := make([]int, 13)
 	lineEnds := make([]int, 13)
@@ -283,29 +277,22 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 		return
 	}
 
-	for i, char := range text[codeboxStart:codeboxEnd] {
-		if char == '\n' {
-			if line != codeboxEndLine {
-				lineIndentCalculated = false
-				lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
-				lastNonSpaceIndex = -1
-				line++
-			}
-			continue
-		}
-
-		if !lineIndentCalculated && !unicode.IsSpace(char) {
-			lineIndentCalculated = true
-			lineStarts[line-codeboxStartLine] = i - int(lineMap[line]) + codeboxStart
-			indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
+	for line := codeboxStartLine; line <= codeboxEndLine; line++ {
+		lineText := text[lineMap[line]:]
+		if line+1 < len(lineMap) {
+			lineText = text[lineMap[line]:lineMap[line+1]]
 		}
-
-		if lineIndentCalculated && !unicode.IsSpace(char) {
-			lastNonSpaceIndex = i + 1
+		lineText = strings.TrimRightFunc(lineText, unicode.IsSpace)
+		if lineText == "" {
+			continue
 		}
+		lineStarts[line-codeboxStartLine] = len(lineText) - len(strings.TrimLeftFunc(lineText, unicode.IsSpace))
+		lineEnds[line-codeboxStartLine] = len(lineText)
+		indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
 	}
-	if line == codeboxEndLine {
-		lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+	if indentSize == math.MaxInt {
+		// All lines are blank.
+		indentSize = 0
 	}
 
 	diagnosticHighlightActive := false
-- 
2.43.0


From 736d0c21ba73cc1d50c12f3eeaae12bb320ab0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 07/20] fix: no-base-to-string reports must not depend on the
 order of expressions

What is found about a type by cutting a cycle holds only inside that cycle;
remembering it hid reports about types that are looked at later.
---
 internal/rules/no_base_to_string/no_base_to_string.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_base_to_string/no_base_to_string.go b/internal/rules/no_base_to_string/no_base_to_string.go
index 525bea4..b9371cc 100644
--- a/internal/rules/no_base_to_string/no_base_to_string.go
+++ b/internal/rules/no_base_to_string/no_base_to_string.go
@@ -50,6 +50,8 @@ const (
 type certaintyMemo struct {
 	values    map[*checker.Type]usefulness
 	resolving map[*checker.Type]struct{}
+	// how often a cycle was cut at a type that is being resolved
+	cuts int
 }
 
 func newCertaintyMemo() *certaintyMemo {
@@ -65,13 +67,18 @@ func (m *certaintyMemo) get(t *checker.Type, compute func() usefulness) usefulne
 	}
 
 	if _, ok := m.resolving[t]; ok {
+		m.cuts++
 		return usefulnessAlways
 	}
 
+	cuts := m.cuts
 	m.resolving[t] = struct{}{}
 	certainty := compute()
 	delete(m.resolving, t)
-	m.values[t] = certainty
+	// What was found by cutting a cycle depends on where the cycle was entered.
+	if m.cuts == cuts {
+		m.values[t] = certainty
+	}
 
 	return certainty
 }
@@ -220,6 +227,7 @@ var NoBaseToStringRule = rule.Rule{
 		) usefulness {
 			if slices.Contains(visited, t) {
 				// don't report if this is a self referencing array or tuple type
+				toStringMemo.cuts++
 				return usefulnessAlways
 			}
 
-- 
2.43.0


From 9d4a3f69660f95b8bac1be2f22da6d8f3b422c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 08/20] fix: a directory whose name starts with that of the
 project is not in the project

An allow list entry of local files without a path matched types declared in
/project2 when the project was in /project.
---
 internal/utils/type_matches_specifier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/type_matches_specifier.go b/internal/utils/type_matches_specifier.go
index c97cd54..47b54f1 100644
--- a/internal/utils/type_matches_specifier.go
+++ b/internal/utils/type_matches_specifier.go
@@ -173,8 +173,9 @@ func typeDeclaredInFile(
 ) bool {
 	cwd := program.Host().GetCurrentDirectory()
 	if relativePath == "" {
+		root := tspath.EnsureTrailingDirectorySeparator(cwd)
 		return Some(declarationFiles, func(f *ast.SourceFile) bool {
-			return strings.HasPrefix(f.FileName(), cwd)
+			return strings.HasPrefix(f.FileName(), root)
 		})
 	}
 	absPath := tspath.GetNormalizedAbsolutePath(relativePath, cwd)
-- 
2.43.0


From e863bf3ee5ad8eb9f65b80211c022de9c48eeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 09/20] fix: the package.json of an outer package does not name
 the packages installed in it

---
 internal/utils/type_matches_specifier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/type_matches_specifier.go b/internal/utils/type_matches_specifier.go
index 47b54f1..03df6c9 100644
--- a/internal/utils/type_matches_specifier.go
+++ b/internal/utils/type_matches_specifier.go
@@ -263,7 +263,8 @@ func findPackageNameFromNearestPackageJSON(
 ) (string, bool) {
 	fs := program.Host().FS()
 	currentDir := tspath.GetDirectoryPath(fileName)
-	for currentDir != "" && containsNodeModulesSegment(currentDir) {
+	// A package.json above the folder that packages are installed in is that of another package.
+	for currentDir != "" && containsNodeModulesSegment(currentDir) && tspath.GetBaseFileName(currentDir) != "node_modules" {
 		packageJSONPath := tspath.CombinePaths(currentDir, "package.json")
 		if contents, ok := fs.ReadFile(packageJSONPath); ok {
 			var packageJSON struct {
-- 
2.43.0


From 60997edb42370d6f46bd729ba928889e97b9378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 10/20] fix: no-floating-promises looks through parentheses

---
 .../no_floating_promises/no_floating_promises.go  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/rules/no_floating_promises/no_floating_promises.go b/internal/rules/no_floating_promises/no_floating_promises.go
index 3fd2337..8c19470 100644
--- a/internal/rules/no_floating_promises/no_floating_promises.go
+++ b/internal/rules/no_floating_promises/no_floating_promises.go
@@ -211,12 +211,12 @@ var NoFloatingPromisesRule = rule.Rule{
 				return false
 			}
 
-			callExpression := node.AsCallExpression()
+			callee := ast.SkipParentheses(node.AsCallExpression().Expression)
 
-			t := ctx.TypeChecker.GetTypeAtLocation(callExpression.Expression)
+			t := ctx.TypeChecker.GetTypeAtLocation(callee)
 
 			if utils.ValueMatchesSomeSpecifier(
-				callExpression.Expression,
+				callee,
 				opts.AllowForKnownSafeCalls,
 				ctx.Program,
 				t,
@@ -232,11 +232,12 @@ var NoFloatingPromisesRule = rule.Rule{
 		}
 
 		isAsyncIife := func(node *ast.ExpressionStatement) bool {
-			if !ast.IsCallExpression(node.Expression) {
+			expression := ast.SkipParentheses(node.Expression)
+			if !ast.IsCallExpression(expression) {
 				return false
 			}
 
-			callee := ast.SkipParentheses(node.Expression.AsCallExpression().Expression)
+			callee := ast.SkipParentheses(expression.AsCallExpression().Expression)
 
 			return ast.IsArrowFunction(callee) || ast.IsFunctionExpression(callee)
 		}
@@ -261,6 +262,8 @@ var NoFloatingPromisesRule = rule.Rule{
 
 		var isUnhandledPromise func(node *ast.Node) *unhandledPromise
 		isUnhandledPromise = func(node *ast.Node) *unhandledPromise {
+			node = ast.SkipParentheses(node)
+
 			if ast.IsAssignmentExpression(node, false) {
 				return nil
 			}
@@ -309,7 +312,7 @@ var NoFloatingPromisesRule = rule.Rule{
 				// rejection handler handles the promise.
 
 				callExpr := node.AsCallExpression()
-				callee := callExpr.Expression
+				callee := ast.SkipParentheses(callExpr.Expression)
 				if ast.IsAccessExpression(callee) {
 					// TODO(port): getStaticMemberAccessValue -> GetAccessedPropertyName is an
 					// enhancement, we should probably add tests for it
-- 
2.43.0


From 8fab9f44b98ee319aad59bbcff2cebe097036c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 11/20] fix: await-thenable does not crash on iterables without
 type arguments

---
 internal/rules/await_thenable/await_thenable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/await_thenable/await_thenable.go b/internal/rules/await_thenable/await_thenable.go
index e9cdd39..9ab8a23 100644
--- a/internal/rules/await_thenable/await_thenable.go
+++ b/internal/rules/await_thenable/await_thenable.go
@@ -306,6 +306,10 @@ func getValueTypesOfArrayLike(
 		return []*checker.Type{numberIndexType}
 	}
 
+	if checker.Type_objectFlags(t)&checker.ObjectFlagsReference == 0 {
+		return nil
+	}
+
 	typeArguments := checker.Checker_getTypeArguments(typeChecker, t)
 	if len(typeArguments) != 0 {
 		return typeArguments[:1]
-- 
2.43.0


From 9867829522b552badabb2bff838acd49354722c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 12/20] fix: use-unknown-in-catch-callback-variable accepts
 empty rest tuples

---
 .../use_unknown_in_catch_callback_variable.go              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
index 4d46911..796d003 100644
--- a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
+++ b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
@@ -79,7 +79,12 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 						if !checker.Checker_isArrayOrTupleType(ctx.TypeChecker, firstParamType) {
 							return true
 						}
-						firstParamType = checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)[0]
+						typeArguments := checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)
+						if len(typeArguments) == 0 {
+							// an empty tuple: there is no first parameter.
+							continue
+						}
+						firstParamType = typeArguments[0]
 					}
 
 					if !utils.IsTypeFlagSet(firstParamType, checker.TypeFlagsUnknown) {
-- 
2.43.0


From e97dfbce273fb58a4457ea8d5ff14b9952c3025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 13/20] fix: no-duplicate-type-constituents finds separators
 behind template literal types

---
 .../no_duplicate_type_constituents.go                 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
index 9608518..0077c16 100644
--- a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
+++ b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
@@ -95,7 +95,16 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 				}
 
 				parent := unwindedParentType(constituentNode, kind)
-				s := scanner.GetScannerForSourceFile(ctx.SourceFile, parent.Pos())
+				// Start behind the previous constituent: template literal types cannot be
+				// told apart from other tokens by scanning alone.
+				start := parent.Pos()
+				parent.ForEachChild(func(sibling *ast.Node) bool {
+					if sibling.End() <= constituentNode.Pos() {
+						start = sibling.End()
+					}
+					return false
+				})
+				s := scanner.GetScannerForSourceFile(ctx.SourceFile, start)
 				foundBefore := false
 				prevStart := 0
 				bracketBeforeTokens := []core.TextRange{}
-- 
2.43.0


From 15672cf05fd1f515c31d8ca6230cb5a2db6c7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 14/20] fix: no-mixed-enums handles empty and namespace-merged
 declarations

---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index c2ac6ee..276d650 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -49,11 +49,17 @@ var NoMixedEnumsRule = rule.Rule{
 			}
 		}
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
-			symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name())
-
-			declaration := symbol.Declarations[0]
+			// Enums merge with each other and with namespaces. The first member of any
+			// declaration of this enum decides.
+			if symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name()); symbol != nil {
+				for _, declaration := range symbol.Declarations {
+					if ast.IsEnumDeclaration(declaration) && len(declaration.Members()) != 0 {
+						return getMemberType(declaration.Members()[0])
+					}
+				}
+			}
 
-			return getMemberType(declaration.Members()[0])
+			return getMemberType(node.Members()[0])
 		}
 		return rule.RuleListeners{
 			ast.KindEnumDeclaration: func(node *ast.Node) {
-- 
2.43.0


From e4ee064cf7cd38d5a096410198ef8ed04080a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 15/20] fix: trimmed ranges of missing nodes are not inverted

---
 internal/utils/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/utils/utils.go b/internal/utils/utils.go
index 5d71d0e..396c23f 100644
--- a/internal/utils/utils.go
+++ b/internal/utils/utils.go
@@ -13,7 +13,9 @@ import (
 )
 
 func TrimNodeTextRange(sourceFile *ast.SourceFile, node *ast.Node) core.TextRange {
-	return scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).WithEnd(node.End())
+	// A node that is missing in the source has no tokens: the next one is behind it.
+	start := scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).Pos()
+	return core.NewTextRange(min(start, node.End()), node.End())
 }
 
 func GetCommentsInRange(sourceFile *ast.SourceFile, inRange core.TextRange) iter.Seq[ast.CommentRange] {
-- 
2.43.0


From 0b4f6300272944944ed55a8c7c1fbe8737926802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 16/20] fix: no-unnecessary-template-expression ignores
 incomplete templates

---
 .../no_unnecessary_template_expression.go                  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 845c323..c95a4d0 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -140,6 +140,11 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				expression = expression.AsLiteralTypeNode().Literal
 			}
 
+			// the source is incomplete
+			if ast.NodeIsMissing(nextQuasiLiteral) || ast.IsUnterminatedLiteral(expression) {
+				return false
+			}
+
 			if isFixableIdentifier(expression) {
 				return true
 			}
@@ -214,7 +219,7 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 		}
 
 		isTrivialInterpolation := func(templateSpans *ast.NodeList, head *ast.TemplateHeadNode, firstSpanLiteral *ast.Node) bool {
-			return len(templateSpans.Nodes) == 1 && head.AsTemplateHead().Text == "" && firstSpanLiteral.Text() == "" && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(head.End(), firstSpanLiteral.Pos())) && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(firstSpanLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, firstSpanLiteral).Pos()))
+			return len(templateSpans.Nodes) == 1 && !ast.NodeIsMissing(firstSpanLiteral) && head.AsTemplateHead().Text == "" && firstSpanLiteral.Text() == "" && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(head.End(), firstSpanLiteral.Pos())) && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(firstSpanLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, firstSpanLiteral).Pos()))
 		}
 
 		isEnumMemberType := func(t *checker.Type) bool {
-- 
2.43.0


From 466cb8ee76d3b189e2a9328dbd103583bb5f6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 17/20] fix: no-unsafe-type-assertion reports JSDoc casts at
 their type

---
 .../no_unsafe_type_assertion/no_unsafe_type_assertion.go      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go b/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
index 971725c..db34666 100644
--- a/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
+++ b/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
@@ -57,6 +57,10 @@ func isObjectLiteralType(t *checker.Type) bool {
 
 func getAssertionRange(sourceFile *ast.SourceFile, node, expression, typeAnnotation *ast.Node) core.TextRange {
 	if ast.IsAsExpression(node) {
+		if typeAnnotation.Pos() < expression.Pos() {
+			// a JSDoc type cast: the type is in the comment before the expression
+			return utils.TrimNodeTextRange(sourceFile, typeAnnotation)
+		}
 		asKeywordRange := scanner.GetScannerForSourceFile(sourceFile, expression.End()).TokenRange()
 		return asKeywordRange.WithEnd(typeAnnotation.End())
 	}
-- 
2.43.0


From 5d75d28e8844da9ab6fc96b9c2a17bbadf20894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 18/20] fix: require-await removes the closing bracket of the
 return type

---
 internal/rules/require_await/require_await.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/rules/require_await/require_await.go b/internal/rules/require_await/require_await.go
index ff624f5..7c5ae11 100644
--- a/internal/rules/require_await/require_await.go
+++ b/internal/rules/require_await/require_await.go
@@ -175,10 +175,13 @@ func buildRemoveAsyncFixes(sourceFile *ast.SourceFile, node *ast.Node, asyncToke
 	case !isGenerator && isTypeReferenceNamed(typeRef, "Promise") && typeRef.TypeArguments != nil && len(typeRef.TypeArguments.Nodes) > 0:
 		// Unwrap `Promise<T>` to `T` by deleting `Promise<` and the trailing `>`.
 		// `TypeArguments.Loc` spans the content between the angle brackets, so
-		// `Pos()-1` is the `<` and `End()` is the `>` (same invariant as parameter
-		// lists; `parseBracketedList` sets these bounds).
+		// `Pos()-1` is the `<` and the first token at `End()` is the `>` (same
+		// invariant as parameter lists; `parseBracketedList` sets these bounds).
 		openAnglePos := typeRef.TypeArguments.Loc.Pos() - 1
-		closeAnglePos := typeRef.TypeArguments.Loc.End()
+		closeAnglePos := scanner.GetRangeOfTokenAtPosition(sourceFile, typeRef.TypeArguments.Loc.End()).Pos()
+		if closeAnglePos >= len(text) || text[closeAnglePos] != '>' {
+			return fixes
+		}
 		fixes = append(fixes,
 			rule.RuleFixRemoveRange(core.NewTextRange(closeAnglePos, closeAnglePos+1)),
 			rule.RuleFixRemoveRange(core.NewTextRange(typeNameStart, openAnglePos+1)),
-- 
2.43.0


From e72b1966f71d40f0f3a188a27ce127a8f5c9819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 19/20] fix: no-redundant-type-constituents reports in the
 order of the source

---
 .../no_redundant_type_constituents.go                       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go b/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
index 9425c24..169e32d 100644
--- a/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
+++ b/internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go
@@ -386,7 +386,11 @@ var NoRedundantTypeConstituentsRule = rule.Rule{
 						return
 					}
 
-					for typeNode, typeFlags := range overriddenNodes {
+					for _, typeNode := range node.AsUnionTypeNode().Types.Nodes {
+						typeFlags := overriddenNodes[typeNode]
+						if len(typeFlags) == 0 {
+							continue
+						}
 						ctx.ReportNode(typeNode, buildLiteralOverriddenMessage(strings.Join(utils.Map(typeFlags, func(t typeFlagsWithNodeOrType) string {
 							return t.ToString(ctx.TypeChecker)
 						}), " | "), primitiveName))
-- 
2.43.0


From f650af10acdd195d31e2e927b5e71a69da752250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 20/20] fix: no-misused-promises ignores commas, assignments in
 parentheses and arguments of predicates

---
 internal/rules/no_misused_promises/no_misused_promises.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/rules/no_misused_promises/no_misused_promises.go b/internal/rules/no_misused_promises/no_misused_promises.go
index 139f968..914d605 100644
--- a/internal/rules/no_misused_promises/no_misused_promises.go
+++ b/internal/rules/no_misused_promises/no_misused_promises.go
@@ -226,7 +226,7 @@ var NoMisusedPromisesRule = rule.Rule{
 		checkArrayPredicates := func(node *ast.Node) {
 			parent := node.Parent
 
-			if !ast.IsCallExpression(parent) {
+			if !ast.IsCallExpression(parent) || parent.Expression() != node {
 				return
 			}
 
@@ -314,7 +314,7 @@ var NoMisusedPromisesRule = rule.Rule{
 			node *ast.Expression,
 			isTestExpr bool,
 		) {
-			if node == nil || ast.IsAssignmentExpression(node, false) {
+			if node == nil || ast.IsAssignmentExpression(ast.SkipParentheses(node), false) {
 				return
 			}
 			// prevent checking the same node multiple times
@@ -894,7 +894,7 @@ var NoMisusedPromisesRule = rule.Rule{
 
 		listeners := rule.RuleListeners{
 			ast.KindBinaryExpression: func(node *ast.Node) {
-				if opts.ChecksConditionals {
+				if opts.ChecksConditionals && ast.IsLogicalExpression(node) {
 					checkConditional(node, false)
 				}
 
-- 
2.43.0

