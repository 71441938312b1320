package vp18

import (
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rules/no_misused_promises"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type misusedOpts = no_misused_promises.NoMisusedPromisesOptions

//vrt:replace github.com/typescript-eslint/tsgolint/internal/utils.UnmarshalOptions[github.com/typescript-eslint/tsgolint/internal/rules/no_misused_promises.NoMisusedPromisesOptions]
func misusedOptions(o any, name string) misusedOpts { return o.(misusedOpts) }

// tested adds what is tested for being truthy within e, when e is a test or not.
func tested(e *ex, test bool, out map[*ex]bool) {
	e = bare(e)
	switch e.kind {
	case "assign":
	case "||", "&&", "??":
		if test || e.kind != "??" {
			tested(e.a, test, out)
		}
		if test {
			tested(e.b, true, out)
		}
	default:
		if strings.Trim(e.typ, "PSTO") == "" {
			out[e] = true
		}
	}
}

// walk adds what is tested anywhere in e.
func walk(e *ex, out map[*ex]bool) {
	if e == nil {
		return
	}
	switch e.kind {
	case "||", "&&", "??":
		tested(e, false, out)
	case "unary":
		tested(e.a, true, out)
	}
	walk(e.a, out)
	walk(e.b, out)
}

// Conditions, operands of && || ?? !, and parts of those, of 10 forms, under any options.
//
//vrt:opt must=tested,quiet,off weight=20 ckpt=1
func Verif_Conditions() {
	operands := func(i int) []*ex {
		p, s, m, u := at("p", i), at("s", i), at("m", i), at("u", i)
		return []*ex{p, s, u, m, at("n", i), at("any", i), paren(at("t", i)), {text: at("o", i).text, typ: "O", kind: "primary"}, unary(at("q", i), "!", "unary", "n"), {text: "v = " + p.text, typ: "P", kind: "assign"}, paren(&ex{text: "v = " + p.text, typ: "P", kind: "assign"}), method(s, "finally"), unary(p, "await", "await", "n")}
	}
	var es []*ex
	ls, rs := operands(0), operands(1)
	es = append(es, ls...)
	for _, op := range []string{"||", "??", "&&", ",", "?"} {
		for i, l := range ls {
			for j, r := range rs {
				if vrt.Tier() == 0 && (i+2*j+len(op))%5 > 1 {
					continue
				}
				e := binary(op, l, r)
				if strings.Contains(e.typ, "o") {
					e.typ = strings.Replace(e.typ, "o", "O", 1)
				}
				es = append(es, e)
				switch (i + j) % 4 {
				case 0:
					es = append(es, binary("&&", e, at("w", 2)))
				case 1:
					es = append(es, binary("??", at("p", 2), paren(e)))
				case 2:
					es = append(es, paren(unary(e, "!", "unary", "n")))
				}
			}
		}
	}
	forms := []string{"#;", "if (#) {}", "while (#) { break; }", "do {} while (#);", "for (; #;) { break; }", "(#) ? 1 : 2;", "!(#);", "v = #;", "switch (#) {}"}
	var pieces []string
	var tests []bool
	var exprs []*ex
	var starts [][]int
	const per = 60
	n := 0
	for i, e := range es {
		for j := range forms {
			if vrt.Tier() == 0 && (i+j)%3 != 0 {
				continue
			}
			if n%per == 0 {
				pieces, starts = append(pieces, "(async () => {\n"), append(starts, nil)
			}
			n++
			c := len(pieces) - 1
			text := e.text
			if j == 7 && e.kind == "," {
				text = "(" + text + ")"
			}
			starts[c] = append(starts[c], len(pieces[c]))
			pieces[c] += "async () => {" + strings.Replace(forms[j], "#", text, 1) + "};\n"
			exprs, tests = append(exprs, e), append(tests, j > 0 && j < 7)
		}
	}
	for i := range pieces {
		pieces[i] += "}) as unknown;"
	}
	r := no_misused_promises.NoMisusedPromisesRule
	g := vlint.NewGrid("a.ts", "", header(), pieces, &r, misusedOpts{ChecksConditionals: true, ChecksSpreads: true, ChecksVoidReturn: true})
	e := g.Error("Left side of comma", "always return true", "always truthy", "is unreachable", "never nullish", "always nullish", "always falsy", "is always defined", "be converted to", "Unreachable code")
	vrt.Assert(e == "", "no other errors: "+e)
	vrt.Checkpoint()
	k := vrt.Choice("piece", len(pieces))
	o := misusedOpts{ChecksConditionals: vrt.Bool("conditionals"), ChecksSpreads: vrt.Bool("spreads"), ChecksVoidReturn: vrt.Bool("void")}
	ds := g.Lint(k, r, o)
	d := 0
	for i, start := range starts[k] {
		e, test := exprs[k*per+i], tests[k*per+i]
		end := len(g.Text(k))
		if i+1 < len(starts[k]) {
			end = starts[k][i+1]
		}
		stmt := g.Text(k)[start:end]
		want := map[*ex]bool{}
		if o.ChecksConditionals {
			if test {
				tested(e, true, want)
			}
			walk(e, want)
		}
		got := 0
		for ; d < len(ds); d++ {
			text, at := g.At(k, ds[d])
			if at >= end {
				break
			}
			got++
			ok := ds[d].Message.Id == "conditional"
			found := false
			for w := range want {
				found = vrt.Or(found, w.text == text)
			}
			vrt.Assert(ok && found, "not a test of a promise: "+text+" in "+stmt)
		}
		vrt.Assert(got == len(want), "every test of a promise is reported once: "+stmt)
		switch {
		case !o.ChecksConditionals:
			vrt.Reach("off")
		case got > 0:
			vrt.Reach("tested")
		default:
			vrt.Reach("quiet")
		}
	}
	vrt.Assert(d == len(ds), "all reports are of statements")
}

// Function values and whether they return promises.
var functions = []struct {
	text    string
	promise bool
	at      string // what is reported of it
}{
	{"async () => 1", true, "=>"}, {"async (): Promise<number> => 1", true, "Promise<number>"}, {"() => p0", true, "=>"}, {"(async function () {})", true, "async function"}, {"pf", true, "pf"}, {"either", true, "either"}, {"() => t0", true, "=>"}, {"(x?: any) => u0", true, "=>"}, {"k.f", true, "k.f"}, {"mk<(() => Promise<1>) | undefined>()", true, "mk<(() => Promise<1>) | undefined>()"}, {"(over)", true, "over"},
	{"() => 1", false, ""}, {"() => {}", false, ""}, {"nf", false, ""}, {"undefined", false, ""}, {"any0", false, ""}, {"() => any0", false, ""}, {"() => () => p0", false, ""}, {"() => ap0", false, ""}, {"p0", false, ""},
}

// Types of functions and whether what they return is not looked at.
var expects = []struct {
	text string
	void bool
}{
	{"() => void", true}, {"((x: any) => void) | undefined", true}, {"Void", true}, {"{(): void; x?: 1}", true}, {"(() => void) | (() => number)", true}, {"(() => void) | 1", true},
	{"() => number", false}, {"() => unknown", false}, {"() => any", false}, {"() => Promise<unknown>", false}, {"() => void | Promise<void>", false}, {"(() => void) | (() => Promise<any>)", false}, {"{(): Promise<any>; (): void}", false}, {"() => undefined", false}, {"any", false}, {"Function", false}, {"(() => Thenable) | Void", false},
}

// Functions of 20 kinds where one of 17 types is expected, at 22 places, under any options.
//
//vrt:opt must=reported,quiet,off,allowed weight=20 ckpt=1
func Verif_VoidReturn() {
	places := []struct{ text, id string }{
		{"a1(#);", "Argument"}, {"a2(1, #);", "Argument"}, {"a3(1, 2 as any, #);", "Argument"}, {"a4(1, #);", "Argument"}, {"new A5(#);", "Argument"}, {"a6.m(#);", "Argument"}, {"a1?.(#);", "Argument"}, {"a7(#);", "Argument"}, {"a9(1, #);", "Argument"},
		{"v = {f: #} satisfies O;", "Property"}, {"o1 = {f: #};", "Property"}, {"a8({'f': #});", "Property"}, {"o2 = [{f: #}];", "Property"},
		{"function ret(): T { return #; }", "ReturnValue"}, {"const ret2: () => T = () => { return #; };", "ReturnValue"}, {"const ret3: {m(): T} = {m() { return #; }};", "ReturnValue"},
		{"const x: T = #;", "Variable"}, {"let y: T; y = #;", "Variable"}, {"o.f = #;", "Variable"}, {"o['f'] = #;", "Variable"},
		{"({...#});", ""}, {"v = #;", ""},
	}
	const decls = `declare function a1(x: T): void; declare function a2(y: any, x?: T): void; declare function a3(y: any, ...x: T[]): void; declare function a4(...x: [any, T]): void; declare class A5 { constructor(x: T); } declare const a6: {m(x: T): void}; declare function a7(x: T, y?: 1): void; declare function a8(x: O): void; declare function a9(y: any, ...x: [T]): void; let o: O = null!; let o1: O; let o2: O[];
`
	var pieces []string
	var uses []int
	for j := range functions {
		if vrt.Tier() > 0 || j < 2 || j == 4 || j == 5 || j == 9 || j == 12 || j == 19 {
			uses = append(uses, j)
		}
	}
	for _, t := range expects {
		p := "type T = " + t.text + "; type O = {f: T};\n" + decls
		for _, j := range uses {
			for i, pl := range places {
				x := functions[j].text
				if i == 20 {
					x = "(" + x + ")"
				}
				p += "{ " + strings.Replace(pl.text, "#", x, 1) + " }\n"
			}
		}
		pieces = append(pieces, p)
	}
	head := header() + `type Void = {(a: any): void; (): void}; declare const pf: () => Promise<void>; declare const nf: () => void; declare const either: (() => 1) | (() => Promise<1>); declare const over: {(x: 1): void; (): Promise<1>};`
	r := no_misused_promises.NoMisusedPromisesRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, misusedOpts{ChecksConditionals: true, ChecksSpreads: true, ChecksVoidReturn: true})
	e := g.Error("not assignable", "Argument of type", "does not satisfy", "No overload", "Spread types", "implicitly", "always return true", "is used before", "missing the following")
	vrt.Assert(e == "", "no other errors: "+e)
	vrt.Checkpoint()
	k := vrt.Choice("piece", len(pieces))
	t := expects[k]
	names := []string{"Argument", "Property", "ReturnValue", "Variable"}
	o := misusedOpts{ChecksConditionals: true, ChecksSpreads: vrt.Bool("spreads")}
	on := map[string]bool{}
	switch c := vrt.Choice("void", 7); c {
	case 0:
	case 1:
		o.ChecksVoidReturn = true
	case 2:
		o.ChecksVoidReturn = false
	default:
		key := []string{"arguments", "properties", "returns", "variables"}[c-3]
		o.ChecksVoidReturn = map[string]any{key: false, "attributes": false}
		on[names[c-3]] = true
	}
	for _, n := range names {
		on[n] = o.ChecksVoidReturn != false && !on[n]
	}
	ds := g.Lint(k, r, o)
	d := 0
	start := strings.Index(g.Text(k), decls) + len(decls)
	for u := range len(places) * len(uses) {
		i := u % len(places)
		pl, f := places[i], functions[uses[u/len(places)]]
		line := g.Text(k)[start:]
		line = line[:strings.Index(line, "\n")]
		want := pl.id != "" && t.void && f.promise && on[pl.id]
		id, at := "voidReturn"+pl.id, f.at
		if i == 20 && o.ChecksSpreads && f.text == "p0" {
			want, id, at = true, "spread", "..."
		}
		got := 0
		for ; d < len(ds) && ds[d].Range.Pos() < start+len(line); d++ {
			text, p := g.At(k, ds[d])
			got++
			vrt.Assert(want && ds[d].Message.Id == id, "not a misuse: "+ds[d].Message.Id+" in "+line+" "+t.text)
			q := strings.Index(line, strings.TrimRight(strings.Split(pl.text, "#")[0], "")) + len(strings.Split(pl.text, "#")[0])
			vrt.Assert(p >= start && (text == at || strings.HasPrefix(text, at)) && (id == "spread" || p >= start+q), "where the promise comes from: "+text+" in "+line)
		}
		vrt.Assert(got <= 1 && (got == 1) == want, "a promise where none is expected is reported: "+line+" "+t.text)
		switch {
		case got > 0:
			vrt.Reach("reported")
		case pl.id != "" && !on[pl.id]:
			vrt.Reach("off")
		case !t.void:
			vrt.Reach("allowed")
		default:
			vrt.Reach("quiet")
		}
		start += len(line) + 1
	}
	vrt.Assert(d == len(ds), "all reports are of the uses")
}

// Callbacks of array methods and of others with those names, that return promises or not.
//
//vrt:opt must=predicate,quiet ckpt=1
func Verif_Predicates() {
	objects := []struct {
		text  string
		array bool
	}{{"an0", true}, {"(ro)", true}, {"tu", true}, {"un", true}, {"G", true}, {"any0", false}, {"set", false}, {"mixed", false}}
	methods := []struct {
		text string
		test bool
	}{{".filter", true}, {".find", true}, {"['some']", true}, {".every", true}, {"?.filter", true}, {".findIndex", true}, {".findLast", true}, {".map", false}, {".forEach", false}, {"[name]", true}}
	args := []struct {
		text    string
		promise bool
		at      string
	}{{"async () => true", true, "=>"}, {"k.f", true, "k.f"}, {"k['f']", true, "k['f']"}, {"(() => p0)", true, "=>"}, {"pf", true, "pf"}, {"() => true", false, ""}, {"", false, ""}, {"k.p", false, ""}}
	var pieces []string
	for _, o := range objects {
		p := "function f<G extends number[]>(G: G) {\n"
		for _, m := range methods {
			for _, a := range args {
				dot := m.text
				p += "(<any>" + o.text + dot + "(" + a.text + "));\n"
			}
		}
		pieces = append(pieces, p+"}")
	}
	head := header() + "declare const pf: () => Promise<void>; declare const ro: readonly string[]; declare const tu: [1, 2]; declare const un: string[] | number[]; declare const set: {filter(...a: any[]): any, find(...a: any[]): any}; declare const mixed: any; declare const name: 'filter';"
	r := no_misused_promises.NoMisusedPromisesRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, misusedOpts{ChecksConditionals: true})
	vrt.Assert(g.Error("does not exist", "not assignable", "No overload", "Expected ", "implicitly", "not callable") == "", "no other errors: "+g.Error("does not exist"))
	vrt.Checkpoint()
	k := vrt.Choice("object", len(pieces))
	o := misusedOpts{ChecksConditionals: vrt.Bool("conditionals"), ChecksVoidReturn: false}
	ds := g.Lint(k, r, o)
	d, start := 0, strings.Index(g.Text(k), "\n")+1
	for _, m := range methods {
		for _, a := range args {
			line := "(<any>" + objects[k].text + m.text + "(" + a.text + "));\n"
			want := o.ChecksConditionals && objects[k].array && m.test && a.promise
			got := 0
			for ; d < len(ds) && ds[d].Range.Pos() < start+len(line); d++ {
				text, _ := g.At(k, ds[d])
				got++
				vrt.Assert(ds[d].Message.Id == "predicate" && text == a.at, "the callback: "+line)
			}
			vrt.Assert(got <= 1 && want == (got == 1), "a promise instead of a condition is reported once: "+line)
			if want {
				vrt.Reach("predicate")
			} else {
				vrt.Reach("quiet")
			}
			start += len(line)
		}
	}
}
