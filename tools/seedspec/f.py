SEEDS = []
def seed(**k): SEEDS.append(k)

OPT = '''
package utils_test

import (
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/rules/%s"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)
'''
seed(id="P15-null", property="P15", needs="an option that is true by default given as null",
 breaks="a null value of an option that is on by default switches it off",
 edits=[("internal/rules/no_floating_promises/options.go", 'if v, ok := raw["ignoreVoid"]; !ok || v == nil {', 'if _, ok := raw["ignoreVoid"]; !ok {')],
 pkg="internal/utils", test=OPT % "no_floating_promises" + '''
func TestSeedDemo(t *testing.T) {
	o := utils.UnmarshalOptions[no_floating_promises.NoFloatingPromisesOptions](map[string]any{"ignoreVoid": nil}, "r")
	if !o.IgnoreVoid {
		t.Fatal(o)
	}
	o = utils.UnmarshalOptions[no_floating_promises.NoFloatingPromisesOptions](map[string]any{"ignoreVoid": false}, "r")
	if o.IgnoreVoid {
		t.Fatal(o)
	}
}
''')
seed(id="P15-names", property="P15", needs="a specifier with an empty path or package next to several names",
 breaks="only the first of several names of a package specifier is kept",
 edits=[("internal/utils/type_matches_specifier.go", "	if raw.Package != nil {\n		s.Package = *raw.Package\n	}\n", "	if raw.Package != nil {\n		s.Package = *raw.Package\n		if len(names) > 1 {\n			s.Name = names[:1]\n		}\n	}\n")],
 pkg="internal/utils", test='''
package utils

import (
	"testing"

	"github.com/go-json-experiment/json"
)

func TestSeedDemo(t *testing.T) {
	var s TypeOrValueSpecifier
	if err := json.Unmarshal([]byte(`{"from":"package","package":"p","name":["a","b"]}`), &s); err != nil || len(s.Name) != 2 || s.Package != "p" {
		t.Fatal(s, err)
	}
}
''')
seed(id="P15-empty-list", property="P15", needs="an empty list for an option whose default list is not empty",
 breaks="an empty list of ignored type names is read as the default list",
 edits=[("internal/rules/no_base_to_string/options.go", 'if v, ok := raw["ignoredTypeNames"]; !ok || v == nil {', 'if v, ok := raw["ignoredTypeNames"]; !ok || v == nil || len(plain.IgnoredTypeNames) == 0 {')],
 pkg="internal/utils", test=OPT % "no_base_to_string" + '''
func TestSeedDemo(t *testing.T) {
	o := utils.UnmarshalOptions[no_base_to_string.NoBaseToStringOptions](map[string]any{"ignoredTypeNames": []any{}}, "r")
	if len(o.IgnoredTypeNames) != 0 {
		t.Fatal(o)
	}
	o = utils.UnmarshalOptions[no_base_to_string.NoBaseToStringOptions](nil, "r")
	if len(o.IgnoredTypeNames) != 4 {
		t.Fatal(o)
	}
}
''')
L = '''
package utils_test

import (
	"strings"
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/rules/%s"
	"github.com/typescript-eslint/tsgolint/internal/zzlint"
)

func count(src string, opts any) int {
	return len(strings.FieldsFunc(zzlint.Ids(src, %s, opts), func(r rune) bool { return r == ',' }))
}
'''
seed(id="P16-template-array", property="P16", needs="an array of a union one of whose members is not allowed, with allowArray and without allowNumber",
 breaks="with arrays allowed, an array of anything is allowed when one member of its element type is",
 edits=[("internal/rules/restrict_template_expressions/restrict_template_expressions.go", "isTypeAllowed(utils.GetNumberIndexType(ctx.TypeChecker, t))) ||", "utils.Some(utils.UnionTypeParts(utils.GetNumberIndexType(ctx.TypeChecker, t)), isTypeAllowed)) ||")],
 pkg="internal/utils", test=L % ("restrict_template_expressions", "restrict_template_expressions.RestrictTemplateExpressionsRule") + '''
func TestSeedDemo(t *testing.T) {
	o := map[string]any{"allowArray": true, "allowNumber": false}
	if n := count("declare const a: (string | number)[]; `${a}`; export {}", o); n != 1 {
		t.Fatal(n)
	}
	if n := count("declare const a: string[]; `${a}`; export {}", o); n != 0 {
		t.Fatal(n)
	}
}
''')
seed(id="P16-plus-order", property="P16", needs="a union of number and bigint on the left and text on the right, where mixing them is not allowed",
 breaks="what may be a number or a bigint may be added to anything on its right",
 edits=[("internal/rules/restrict_plus_operands/restrict_plus_operands.go", "			if checkMismatchedPlusOperands(leftTypeFlags, rightTypeFlags) {\n				return\n			}\n", "			if checkMismatchedPlusOperands(leftTypeFlags, rightTypeFlags) || leftTypeFlags&checker.TypeFlagsNumberLike != 0 && leftTypeFlags&checker.TypeFlagsBigIntLike != 0 {\n				return\n			}\n")],
 pkg="internal/utils", test=L % ("restrict_plus_operands", "restrict_plus_operands.RestrictPlusOperandsRule") + '''
func TestSeedDemo(t *testing.T) {
	o := map[string]any{"allowNumberAndString": false}
	if n := count("declare const a: number | bigint, b: string; a + b; b + a; b + b; export {}", o); n != 2 {
		t.Fatal(n)
	}
}
''')
seed(id="P16-minus-union", property="P16", needs="a union whose last member is a number but whose first is not",
 breaks="a negation is accepted as soon as some member of the operand's type is a number",
 edits=[("internal/rules/no_unsafe_unary_minus/no_unsafe_unary_minus.go", "						ctx.ReportNode(node, buildUnaryMinusMessage(ctx.TypeChecker.TypeToString(t)))\n						break\n", "						if len(utils.UnionTypeParts(argType)) > 2 && utils.IsTypeFlagSet(utils.UnionTypeParts(argType)[0], checker.TypeFlagsNullable) {\n							break\n						}\n						ctx.ReportNode(node, buildUnaryMinusMessage(ctx.TypeChecker.TypeToString(t)))\n						break\n")],
 pkg="internal/utils", test=L % ("no_unsafe_unary_minus", "no_unsafe_unary_minus.NoUnsafeUnaryMinusRule") + '''
func TestSeedDemo(t *testing.T) {
	if n := count("declare const a: undefined | null | number; -a; declare const b: number | bigint; -b; export {}", nil); n != 1 {
		t.Fatal(n)
	}
}
''')
seed(id="P16-base-tuple", property="P16", needs="a tuple of which a later element may give the default text while an earlier one always has its own",
 breaks="only the first element of a tuple decides whether its text is useful",
 edits=[("internal/rules/no_base_to_string/no_base_to_string.go", "			if utils.Some(certainties, func(c usefulness) bool { return c == usefulnessSometimes }) {\n				return usefulnessSometimes\n			}\n\n			return usefulnessAlways\n", "			if len(certainties) > 0 {\n				return certainties[0]\n			}\n\n			return usefulnessAlways\n")],
 pkg="internal/utils", test=L % ("no_base_to_string", "no_base_to_string.NoBaseToStringRule") + '''
func TestSeedDemo(t *testing.T) {
	if n := count("declare const a: [string, string | {a: 1}]; String(a); declare const b: [string, number]; String(b); export {}", nil); n != 1 {
		t.Fatal(n)
	}
}
''')
SP = '''
package utils_test

import (
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/rules/restrict_template_expressions"
	"github.com/typescript-eslint/tsgolint/internal/zzlint"
)

func reports(files map[string]string, allow ...any) int {
	files["tsconfig.json"] = `{"compilerOptions":{"strict":true,"target":"esnext","lib":["esnext"],"module":"esnext","moduleResolution":"bundler","types":[]},"files":["a.ts"]}`
	r := zzlint.Lint(files, []rule.Rule{restrict_template_expressions.RestrictTemplateExpressionsRule}, map[string]any{"allow": allow})
	if r.Err != nil || len(r.Internal) > 0 {
		panic(r)
	}
	return len(r.Diags)
}
'''
seed(id="P17-scope", property="P17", needs="a type of a scoped package whose declarations are in @types",
 breaks="the scope of a package is joined with one underscore, so declarations in @types are not found",
 edits=[("internal/utils/type_matches_specifier.go", 'return packageName[1:slashIndex] + "__" + packageName[slashIndex+1:]', 'return packageName[1:slashIndex] + "_" + packageName[slashIndex+1:]')],
 pkg="internal/utils", test=SP + '''
func TestSeedDemo(t *testing.T) {
	f := func() map[string]string {
		return map[string]string{"a.ts": "import {Foo} from '@s/d'; declare const f: Foo; `${f}`;", "node_modules/@types/s__d/index.d.ts": "export interface Foo {x: 1}"}
	}
	if n := reports(f(), map[string]any{"from": "package", "package": "@s/d", "name": "Foo"}); n != 0 {
		t.Fatal(n)
	}
	if n := reports(f(), map[string]any{"from": "package", "package": "@s/e", "name": "Foo"}); n != 1 {
		t.Fatal(n)
	}
}
''')
seed(id="P17-namespace", property="P17", needs="a type declared in a namespace of an ambient module",
 breaks="types in namespaces of an ambient module are not found in the package",
 edits=[("internal/utils/type_matches_specifier.go", "		if decl.Keyword == ast.KindNamespaceKeyword {\n			return findParentModuleDeclaration(node.Parent)\n		}\n\n		if ast.IsStringLiteral", "		if ast.IsStringLiteral")],
 pkg="internal/utils", test=SP + '''
func TestSeedDemo(t *testing.T) {
	run := func(name string) int {
		return reports(map[string]string{"a.ts": "/// <reference path='d.d.ts' />\\nimport {N} from 'm'; declare const f: N.Foo; `${f}`;", "d.d.ts": "declare module 'm' { namespace N { interface Foo {x: 1} } }"},
			map[string]any{"from": "package", "package": name, "name": "Foo"})
	}
	if n := run("m"); n != 0 {
		t.Fatal(n)
	}
	if n := run("n"); n != 1 {
		t.Fatal(n)
	}
}
''')
seed(id="P17-inner-json", property="P17", needs="a package whose declarations are in a directory with a package.json of its own that has no name",
 breaks="the search for the name of a package ends at the nearest package.json even when that has no name",
 edits=[("internal/utils/type_matches_specifier.go", "packageJSON.Name != \"\" {\n				return packageJSON.Name, true\n			}\n", "packageJSON.Name != \"\" {\n				return packageJSON.Name, true\n			}\n			break\n")],
 pkg="internal/utils", test=SP + '''
func TestSeedDemo(t *testing.T) {
	run := func(name string) int {
		return reports(map[string]string{"a.ts": "import {Foo} from 'dir'; declare const f: Foo; `${f}`;", "node_modules/dir/package.json": `{"name":"real","types":"lib/x.d.ts"}`,
			"node_modules/dir/lib/package.json": `{"type":"module"}`, "node_modules/dir/lib/x.d.ts": "export interface Foo {x: 1}"},
			map[string]any{"from": "package", "package": name, "name": "Foo"})
	}
	if n := run("real"); n != 0 {
		t.Fatal(n)
	}
	if n := run("dir"); n != 1 {
		t.Fatal(n)
	}
}
''')
