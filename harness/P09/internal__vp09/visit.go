// Package vp09 checks the order in which the linter announces nodes to rules.
package vp09

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type event struct {
	kind ast.Kind
	node *ast.Node
}

// isTarget: n is (part of) what a destructuring assignment or a for-in/of
// statement without declaration assigns to.
func isTarget(n *ast.Node) bool {
	p := n.Parent
	if p == nil {
		return false
	}
	switch p.Kind {
	case ast.KindBinaryExpression:
		b := p.AsBinaryExpression()
		return b.Left == n && b.OperatorToken.Kind == ast.KindEqualsToken && leftHandSide(n)
	case ast.KindForInStatement, ast.KindForOfStatement:
		return p.AsForInOrOfStatement().Initializer == n && n.Kind != ast.KindVariableDeclarationList
	case ast.KindArrayLiteralExpression, ast.KindObjectLiteralExpression, ast.KindSpreadAssignment, ast.KindSpreadElement:
		return isTarget(p)
	case ast.KindPropertyAssignment:
		return p.AsPropertyAssignment().Initializer == n && isTarget(p)
	}
	return false
}

// leftHandSide: an expression that may stand left of an assignment.
func leftHandSide(n *ast.Node) bool {
	switch n.Kind {
	case ast.KindBinaryExpression, ast.KindConditionalExpression, ast.KindArrowFunction, ast.KindYieldExpression, ast.KindPrefixUnaryExpression,
		ast.KindPostfixUnaryExpression, ast.KindTypeOfExpression, ast.KindVoidExpression, ast.KindDeleteExpression, ast.KindAwaitExpression,
		ast.KindAsExpression, ast.KindSatisfiesExpression, ast.KindTypeAssertionExpression, ast.KindSpreadElement:
		return false
	}
	return true
}

// expected is what a rule that listens to everything is told about n.
func expected(n *ast.Node, out []event) []event {
	out = append(out, event{n.Kind, n})
	var k ast.Kind
	if isTarget(n) {
		k = rule.ListenerOnAllowPattern(n.Kind)
	} else if n.Kind == ast.KindArrayLiteralExpression || n.Kind == ast.KindObjectLiteralExpression {
		k = rule.ListenerOnNotAllowPattern(n.Kind)
	}
	if k != 0 {
		out = append(out, event{k, n})
	}
	n.ForEachChild(func(c *ast.Node) bool {
		out = expected(c, out)
		return false
	})
	if k != 0 {
		out = append(out, event{rule.ListenerOnExit(k), n})
	}
	return append(out, event{rule.ListenerOnExit(n.Kind), n})
}

// check lints src with a rule that listens to everything.
func check(src string) {
	var got, want []event
	ran := 0
	vlint.Run(vlint.Config{Files: []string{"a.ts", src}, Rules: []rule.Rule{{Name: "all", Run: func(ctx rule.RuleContext, _ any) rule.RuleListeners {
		ran++
		ctx.SourceFile.AsNode().ForEachChild(func(c *ast.Node) bool {
			want = expected(c, want)
			return false
		})
		l := rule.RuleListeners{}
		for _, e := range want {
			b := e.node.Kind
			for _, k := range []ast.Kind{b, rule.ListenerOnAllowPattern(b), rule.ListenerOnNotAllowPattern(b)} {
				for _, k := range []ast.Kind{k, rule.ListenerOnExit(k)} {
					if l[k] == nil {
						l[k] = func(n *ast.Node) { got = append(got, event{k, n}) }
					}
				}
			}
		}
		return l
	}}}})
	vrt.Assert(ran == 1, "the rule runs once")
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i].kind != want[i].kind || got[i].node != want[i].node {
			vrt.Observe("got", int(got[i].kind))
			vrt.Observe("want", int(want[i].kind))
			vrt.Observe("src", src)
			vrt.Fail("the next event is the one the traversal order asks for")
		}
	}
	vrt.Assert(len(got) == len(want), "every node is entered and left once")
}

func expr(d int) string {
	n := 3
	if d > 0 {
		n = 8
	}
	switch c := vrt.Choice("expr", n); c {
	case 0, 1, 2:
		return []string{"a", "1", "f()"}[c]
	case 3:
		return "[" + expr(d-1) + "]"
	case 4:
		return "{p: " + expr(d-1) + "}"
	case 5:
		return "[..." + expr(d-1) + "]"
	case 6:
		return "(" + target(d-1) + " = a)"
	}
	return "{[" + expr(d-1) + "]() {}}"
}

func target(d int) string {
	n := 2
	if d > 0 {
		n = 12
	}
	switch c := vrt.Choice("target", n); c {
	case 0:
		return "a"
	case 1:
		return "a[f()]"
	case 2:
		return "[" + target(d-1) + "]"
	case 3:
		return "[, ..." + target(d-1) + "]"
	case 4:
		return "{p: " + target(d-1) + "}"
	case 5:
		return "{[f()]: " + target(d-1) + "}"
	case 6:
		return "{..." + target(d-1) + "}"
	case 7:
		return "{p = [f()], q}"
	case 8:
		return "[" + target(d-1) + " = " + expr(d-1) + "]"
	case 9:
		return "{p: " + target(d-1) + " = " + expr(d-1) + "}"
	case 10:
		return "[" + target(d-1) + ", " + target(d-1) + "]"
	}
	return "{'s': " + target(d-1) + ", 1: a}"
}

// Assignments and loops whose targets and values nest two levels (loops one
// quick) of every kind of destructuring pattern and of literals.
//
//vrt:opt must=assign,compound,loop weight=60
func Verif_Patterns() {
	switch vrt.Choice("statement", 8) {
	case 0:
		check("(" + target(2) + " = a);")
		vrt.Reach("assign")
	case 1:
		check("a += " + expr(2) + ";")
		vrt.Reach("compound")
	case 2:
		check("for (" + target(1+vrt.Tier()) + " of a) ;")
		vrt.Reach("loop")
	case 3:
		check("for (" + target(1) + " in " + expr(1) + ") { " + target(1)[:1] + "; }")
	case 4:
		check("async () => { for await (" + target(1) + " of " + expr(1) + ") ; }")
	case 5:
		check("for (let [a = [1], {b: c}] of " + expr(2) + ") ;")
	case 6:
		check("for (" + target(1) + " = " + expr(1) + "; ; [a] = a) ;")
	case 7:
		check("let x = " + expr(2) + ", y = (z, " + target(1) + " = a);")
	}
}

// Every text of four (five thorough) of the characters a = [ ] { } : , . in
// parentheses, well-formed or not, scanned and parsed symbolically.
//
//vrt:opt must=done weight=20
func Verif_Texts() {
	s := vrt.StrN("text", 4+vrt.Tier())
	const set = "a=[]{}:,."
	for i := 0; i < len(s); i++ {
		in := false
		for j := 0; j < len(set); j++ {
			in = vrt.Or(in, s[i] == set[j])
		}
		vrt.Assume(in)
	}
	check("([" + s + "=a)")
	vrt.Reach("done")
}

// Declarations, types, classes, functions, templates and statements of every
// sort, one at a time.
//
//vrt:opt must=done weight=5
func Verif_Syntax() {
	src := []string{
		"let {a: [b, ...c] = [], [d]: {e} = {}, ...r} = x;",
		"function f<T extends A<B>>(this: T, {a}: {a?: T[]} = {a: [1]}, ...r: (string | 1)[]): asserts a is B { return; }",
		"class A<T> extends B<T> implements C { static #p = 1; @d() get x() { return super.y; } constructor(private z = [1]) { super(); } static { x; } [k: string]: any; declare m: T }",
		"x?.y!.z as any satisfies T; <T>y; new A<B>`t${[1]}u`; typeof x; void 0; delete x[0]; -x++; yield; import.meta; x ? y : z;",
		"if (a) b; else c; do ; while (a); while (b) continue; l: for (;;) break l; switch (a) { case [1]: b; default: }",
		"try { throw a } catch ({a: [b]}) { } finally { debugger }",
		"async function* g() { yield* a; await b; for await (const x of y); }",
		"type X<T> = T extends infer U ? {readonly [K in keyof T]?: U} : [a: string, b?: T, ...c: 1[]]; enum E { A = 1, 'B' } namespace N.M { export let q }",
		"interface I extends J { (a): void; new (b): I; m?(): this; readonly p: unique symbol; [k: number]: typeof x; get g(): `a${B}` }",
		"import a, {b as c} from 'm'; import * as n from 'm'; export {a as d}; export * from 'x'; export default [1]; import z = N.M; export = q;",
		"const f = async <T,>(a = {b: 1}) => ({...a, b, [c]: 1, get d() { return 1 }, e() {}}); a = b => c; (a, b); /x/g; 1n; `${{}}`;",
		"a ||= [b]; a ??= {b}; a **= [c] = [d]; [a] = [b] = [c]; x = {a} = b; for (const {a} = b, c = []; ; ) ;",
		"/** @type {A} */ let a; using r = x; label: { } ; ; (function(){}).call`x`; declare module 'm' { let x; } abstract class Q { abstract m(): void; accessor z; }",
	}
	check(src[vrt.Choice("source", len(src))])
	vrt.Reach("done")
}
