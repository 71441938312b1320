SEEDS = []
def seed(**k): SEEDS.append(k)

L = '''
package utils_test

import (
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/rules/%s"
	"github.com/typescript-eslint/tsgolint/internal/zzlint"
)

func ids(src string, opts any) string { return zzlint.Ids(src, %s, opts) }
'''
seed(id="P18-void-nested", property="P18", needs="ignoreVoid off and a void operator that is not the whole statement",
 breaks="without ignoreVoid, a promise behind void within a comma, a branch or a logical operator is not reported",
 edits=[("internal/rules/no_floating_promises/no_floating_promises.go", '''			if !opts.IgnoreVoid && ast.IsVoidExpression(node) {''', '''			if !opts.IgnoreVoid && ast.IsVoidExpression(node) && ast.IsExpressionStatement(ast.WalkUpParenthesizedExpressions(node.Parent)) {''')],
 pkg="internal/utils", test=L % ("no_floating_promises", "no_floating_promises.NoFloatingPromisesRule") + '''
func TestSeedDemo(t *testing.T) {
	o := map[string]any{"ignoreVoid": false}
	if s := ids("declare const p: Promise<1>; void p;", o); s != "floating" {
		t.Fatal(s)
	}
	if s := ids("declare const p: Promise<1>; declare let i: number; i++, void p;", o); s != "floating" {
		t.Fatal(s)
	}
}
''')
seed(id="P18-rest-then", property="P18", needs="a thenable whose then takes its callbacks as a rest parameter",
 breaks="the type of a rest parameter of then is taken for the type of one argument, so that its object is not thenable",
 edits=[("internal/utils/ts_api_utils.go", "param.ValueDeclaration.AsParameterDeclaration().DotDotDotToken != nil {", "param.ValueDeclaration.AsParameterDeclaration().DotDotDotToken != nil && !checker.Checker_isArrayType(typeChecker, t) {")],
 pkg="internal/utils", test=L % ("await_thenable", "await_thenable.AwaitThenableRule") + '''
func TestSeedDemo(t *testing.T) {
	if s := ids("declare const x: {then(...f: (() => void)[]): void}; async function f() { await x; }", nil); s != "" {
		t.Fatal(s)
	}
	if s := ids("declare const x: {then(): void}; async function f() { await x; }", nil); s != "await" {
		t.Fatal(s)
	}
}
''')
seed(id="P18-rest-index", property="P18", needs="a function with parameters before a rest parameter that is a tuple",
 breaks="callbacks passed for the elements of a tuple rest parameter are not checked when parameters precede it",
 edits=[("internal/rules/no_misused_promises/no_misused_promises.go", "i < len(node.Arguments()) && i-index < len(typeArgs); i++", "i < len(node.Arguments()) && i < len(typeArgs); i++")],
 pkg="internal/utils", test=L % ("no_misused_promises", "no_misused_promises.NoMisusedPromisesRule") + '''
func TestSeedDemo(t *testing.T) {
	if s := ids("declare function f(...x: [1, () => void]): void; f(1, async () => {});", nil); s != "voidReturnArgument" {
		t.Fatal(s)
	}
	if s := ids("declare function f(a: 1, b: 1, ...x: [() => void]): void; f(1, 1, async () => {});", nil); s != "voidReturnArgument" {
		t.Fatal(s)
	}
}
''')
