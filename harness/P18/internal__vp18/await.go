package vp18

import (
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/rules/await_thenable"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// Types and whether awaiting them is of use: A(lways), M(aybe), N(ever).
var awaitables = []struct{ text, aw string }{
	{"number", "N"}, {"'a' | 'b'", "NN"}, {"{a: 1}", "N"}, {"null", "N"}, {"void", "N"}, {"object", "N"}, {"() => Promise<1>", "N"}, {"E", "N"}, {"H", "N"}, {"bigint[]", "N"},
	{"{then: 1}", "N"}, {"{then(): void}", "N"}, {"{then(x: number): void}", "N"}, {"{then?: number}", "N"}, {"{Then(f: () => void): void}", "N"},
	{"Promise<number>", "A"}, {"PromiseLike<1>", "A"}, {"Safe", "A"}, {"Promise<1> & {q: 1}", "A"}, {"Promise<Promise<1>>", "A"}, {"{then(f: () => void): void}", "A"}, {"{then: (f: (x: 1) => void, g: 1) => void}", "A"}, {"{then(...f: (() => void)[]): void}", "A"}, {"{then: number | ((f: () => void) => void)}", "A"}, {"{then(f: null | (() => void)): void}", "A"}, {"K", "A"}, {"Thenable", "A"},
	{"Promise<1> | number", "AN"}, {"Thenable | undefined", "AN"}, {"Safe | Promise<string>", "AA"},
	{"any", "M"}, {"unknown", "M"}, {"G", "M"},
}

type expected struct{ text, id, at, fixed string }

// judge compares what is reported of the text in piece k that starts at start.
func judge(g *vlint.Grid, k int, all []rule.RuleDiagnostic, start int, about string, want []expected) {
	end := start + len(about)
	var ds []rule.RuleDiagnostic
	for _, d := range all {
		if d.Range.Pos() >= start && d.Range.Pos() < end {
			ds = append(ds, d)
		}
	}
	for i := range ds {
		text, at := g.At(k, ds[i])
		ok := false
		for _, w := range want {
			p := strings.Index(about, w.at)
			vrt.Assert(p >= 0, "the report is of the text: "+w.at)
			if w.id == ds[i].Message.Id && w.text == text && at-start == p+strings.Index(w.at, w.text) {
				ok = true
			}
		}
		vrt.Assert(ok, "a report that is not expected: "+ds[i].Message.Id+" of "+text+" in "+about)
		for j := range ds[:i] {
			vrt.Assert(ds[i].Range != ds[j].Range || ds[i].Message.Id != ds[j].Message.Id, "reported twice: "+about)
		}
		for _, l := range ds[i].LabeledRanges {
			vrt.Assert(l.Range.Pos() >= 0 && l.Range.Pos() < l.Range.End() && l.Range.End() <= len(g.Text(k)), "labels are of the file")
		}
	}
	if len(ds) < len(want) {
		vrt.Fail("not reported: " + want[0].id + " of " + want[0].text + " in " + about)
	}
	for _, w := range want {
		for i := range ds {
			text, _ := g.At(k, ds[i])
			if w.fixed == "" || w.id != ds[i].Message.Id || w.text != text {
				continue
			}
			vrt.Assert(ds[i].Suggestions != nil && len(*ds[i].Suggestions) == 1, "there is a suggestion: "+about)
			fixed := g.Fixed(k, (*ds[i].Suggestions)[0].Fixes())
			fixed = fixed[start : len(fixed)-(len(g.Text(k))-end)]
			vrt.Assert(strings.Join(strings.Fields(fixed), "") == strings.Join(strings.Fields(strings.Replace(about, w.at, w.fixed, 1)), ""), "the suggestion: "+fixed)
		}
	}
}

// Awaited values, operands of Promise.all and the like, of any of 33 types, alone,
// as elements, spread, and as elements of arrays, tuples and sets.
//
//vrt:opt must=never,useful,maybe weight=20 ckpt=1
func Verif_Await() {
	const params = "async function x<G, H extends number, K extends Promise<1>>("
	var pieces []string
	forms := []struct{ use, flag string }{
		{"await x", "await"}, {"await (x)", "await"}, {"f(await x, 1)", "await"}, {"Promise.all([x])", "element"}, {"Promise.race([0 as any, (x), p])", "element"}, {"Promise.all(x1)", "array"}, {"Promise['any'](x1)", "array"}, {"Promise.allSettled(x2)", "tuple"}, {"Promise.all([...x1])", "spread"}, {"Promise.all(x3)", "array"}, {"(Promise.race)(x4)", "any"},
		{"other.all([x])", "none"}, {"Promise.resolve(x)", "none"}, {"Promise.all()", "none"}, {"P2.all([x])", "element"}, {"Promise.all(x5)", "array"}, {"Promise.all(p, [x])", "none"},
	}
	for _, t := range awaitables {
		ty := "(" + t.text + ")"
		head := params + "x: " + ty + ", x1: " + ty + "[], x2: [any, " + ty + "], x3: Set<" + ty + ">, x4: any, x5: readonly " + ty + "[]) {\n"
		for _, f := range forms {
			head += f.use + ";\n"
		}
		pieces = append(pieces, head+"}")
	}
	head := header() + "enum E {A} declare const p: Promise<1>; declare const other: any; declare const P2: typeof Promise;"
	r := await_thenable.AwaitThenableRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, nil)
	e := g.Error("Expected 1 arguments", "implicitly", "is not assignable", "has no effect", "must either be a valid promise", "missing the following properties")
	vrt.Assert(e == "", "no other errors: "+e)
	vrt.Checkpoint()
	k := vrt.Choice("type", len(awaitables))
	t := awaitables[k]
	ds := g.Lint(k, r, nil)
	start := strings.Index(g.Text(k), ") {\n") + 4
	// all parts, or any of them, are never awaited
	all, any := !strings.ContainsAny(t.aw, "AM"), strings.Contains(t.aw, "N")
	for _, f := range forms {
		x := ""
		if p := strings.LastIndex(f.use, "x"); p >= 0 {
			x = strings.Trim(f.use[p:], ")]")
		}
		if strings.HasSuffix(f.use, "p])") {
			x = "(x)"
		}
		var want []expected
		switch {
		case f.flag == "await" && all:
			want = []expected{{"await", "await", f.use, strings.Replace(f.use, "await ", "", 1)}}
		case f.flag == "element" && all:
			want = []expected{{x, "invalidPromiseAggregatorInput", f.use, ""}}
		case f.flag == "spread" && all:
			want = []expected{{"...x1", "invalidPromiseAggregatorInput", f.use, ""}}
		case f.flag == "array" && any, f.flag == "tuple" && any:
			want = []expected{{x, "invalidPromiseAggregatorInput", f.use, ""}}
		}
		judge(g, k, ds, start, f.use, want)
		start += len(f.use) + 2
		switch {
		case len(want) > 0:
			vrt.Reach("never")
		case strings.Contains(t.aw, "M"):
			vrt.Reach("maybe")
		default:
			vrt.Reach("useful")
		}
	}
}

// Loops with await over, and declarations with await using of, values of 12 types.
//
//vrt:opt must=reported,quiet ckpt=1
func Verif_AwaitOther() {
	types := []struct {
		text      string
		loop, use bool
	}{
		{"number[]", false, false}, {"AsyncIterable<1>", true, false}, {"AsyncIterable<1> & {a: 1}", true, false}, {"AsyncIterable<1> | number[]", true, false}, {"Iterable<Promise<1>>", false, false}, {"any", true, true}, {"string", false, false}, {"{[Symbol.asyncIterator](): AsyncIterator<1>; [Symbol.iterator](): Iterator<1>}", true, false},
		{"Disposable", false, false}, {"AsyncDisposable", false, true}, {"AsyncDisposable | Disposable", false, true}, {"AsyncDisposable | null", false, true}, {"Disposable & AsyncDisposable", false, true}, {"null", false, false}, {"L", true, false}, {"M", false, true},
	}
	const loop, use = "forAwaitOfNonAsyncIterable", "awaitUsingOfNonAsyncDisposable"
	forms := []struct {
		text string
		loop bool
		want []expected
	}{
		{"for await (const a of x) {}", true, []expected{{"for await (const a of x)", loop, "for await (const a of x)", "for (const a of x)"}}},
		{"for await (const a of (x)) ;", true, []expected{{"for await (const a of (x))", loop, "for await (const a of (x))", "for (const a of (x))"}}},
		{"for (const a of x) {}", true, nil},
		{"{await using a = x;}", false, []expected{{"x", use, "await using a = x", "using a = x"}}},
		{"{await using a = x, b = (y);}", false, []expected{{"x", use, "= x,", ""}, {"(y)", use, "= (y)", ""}}},
		{"{using a = x;}", false, nil},
		{"{await using b = z, a = (x);}", false, []expected{{"(x)", use, "a = (x)", ""}}},
	}
	var pieces []string
	for _, t := range types {
		head := "async function f<L extends AsyncIterable<1>, M extends AsyncDisposable>(x: " + t.text + ", y: " + t.text + ", z: AsyncDisposable) {\n"
		for _, f := range forms {
			head += f.text + "\n"
		}
		pieces = append(pieces, head+"}")
	}
	r := await_thenable.AwaitThenableRule
	g := vlint.NewGrid("a.ts", "", header(), pieces, &r, nil)
	e := g.Error("must have a", "must be of type", "must be either", "is not assignable", "initializer", "possibly", "Property '[Symbol.")
	vrt.Assert(e == "", "no other errors: "+e)
	vrt.Checkpoint()
	k := vrt.Choice("type", len(types))
	t := types[k]
	ds := g.Lint(k, r, nil)
	start := strings.Index(g.Text(k), ") {\n") + 4
	for _, f := range forms {
		want := f.want
		if f.loop && t.loop || !f.loop && t.use {
			want = nil
		}
		judge(g, k, ds, start, f.text, want)
		start += len(f.text) + 1
		if len(want) > 0 {
			vrt.Reach("reported")
		} else {
			vrt.Reach("quiet")
		}
	}
}
