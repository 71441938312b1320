// Package vp18 checks what the rules about promises take for handled, awaited and awaitable.
package vp18

import (
	"strconv"
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_floating_promises"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type floatOpts = no_floating_promises.NoFloatingPromisesOptions

//vrt:replace github.com/typescript-eslint/tsgolint/internal/utils.UnmarshalOptions[github.com/typescript-eslint/tsgolint/internal/rules/no_floating_promises.NoFloatingPromisesOptions]
func floatOptions(o any, name string) floatOpts { return o.(floatOpts) }

// An expression. Its type is a set of: P(romise) S(ubclass of it) T(henable) n(umber)
// u(ndefined) a(ny), and p, s and t: arrays of those.
type ex struct {
	text, typ, kind string
	a, b            *ex
	call            string // the method called, if any
	args            []string
	iife, safe      bool
}

func has(t, c string) bool { return strings.ContainsAny(t, c) }

func without(t, c string) (o string) {
	for _, x := range t {
		if !strings.ContainsRune(c, x) {
			o += string(x)
		}
	}
	return
}

func join(a, b string) string {
	t := a + without(b, a)
	switch {
	case has(t, "a"):
		return "a"
	case has(t, "P"):
		t = without(t, "S")
	}
	if has(t, "p") {
		t = without(t, "s")
	}
	return t
}

// high tells whether void can go before it without parentheses.
func (e *ex) high() bool {
	return e.kind == "paren" || e.kind == "call" || e.kind == "primary"
}

// operand is the text of e as an operand of anything.
func (e *ex) operand() string {
	if e.high() {
		return e.text
	}
	return "(" + e.text + ")"
}

func leaf(text, typ string) *ex { return &ex{text: text, typ: typ, kind: "primary"} }

var leaves = []struct{ name, typ, decl string }{
	{"p", "P", "Promise<number>"}, {"s", "S", "Safe"}, {"t", "T", "Thenable"}, {"n", "n", "number"}, {"u", "Pu", "Promise<number> | undefined"}, {"v", "Su", "Safe | undefined"}, {"w", "Tu", "Thenable | undefined"},
	{"m", "PT", "Promise<number> | Thenable"}, {"q", "P", "Promise<number> & {q: 1}"}, {"ap", "p", "Promise<number>[]"}, {"as", "s", "Safe[]"}, {"at", "t", "Thenable[]"}, {"tp", "p", "[number, Promise<number>]"}, {"ts", "s", "readonly [Safe]"}, {"an", "n", "number[]"}, {"any", "a", "any"},
	{"o", "o", "{then(a: (x: number) => void): void; catch(): void}"}, {"apu", "pu", "Promise<number>[] | undefined"}, {"atp", "nt", "number | Thenable[]"},
}

func at(name string, i int) *ex {
	for _, l := range leaves {
		if l.name == name {
			return leaf(name+strconv.Itoa(i), l.typ)
		}
	}
	panic(name)
}

func calls(i int) []*ex {
	return []*ex{
		{text: "f()", typ: "P", kind: "call"}, {text: "k.safe()", typ: "P", kind: "call", safe: true}, {text: "(safe)(1)", typ: "P", kind: "call", safe: true}, {text: "g()", typ: "T", kind: "call"}, {text: "new Promise<number>(h)", typ: "P", kind: "primary"}, {text: "f``", typ: "P", kind: "primary"},
		{text: "k.p", typ: "P", kind: "primary"}, {text: "mk<Safe>()", typ: "S", kind: "call"}, {text: "k.f()", typ: "P", kind: "call"}, {text: "safe()()", typ: "P", kind: "call"},
	}
}

func paren(e *ex) *ex { return &ex{text: "(" + e.text + ")", typ: e.typ, kind: "paren", a: e} }
func unary(e *ex, op, kind, typ string) *ex {
	return &ex{text: op + " " + e.operand(), typ: typ, kind: kind, a: e}
}

func awaited(t string) (o string) {
	for _, c := range t {
		if strings.ContainsRune("PST", c) {
			o = join(o, "n")
		} else {
			o = join(o, string(c))
		}
	}
	return
}

// method calls a method of e: a promise or thenable.
func method(e *ex, name string, args ...string) *ex {
	dot := "."
	t := ""
	for _, c := range e.typ {
		switch c {
		case 'P', 'S':
			t = join(t, "P")
		case 'T':
			t = join(t, "T")
		case 'u':
			dot = "?."
			t = join(t, "u")
		}
	}
	text := e.operand() + dot + name
	if name[0] == '[' {
		text = e.operand() + strings.Trim(dot, ".") + name
		if dot == "?." {
			text = e.operand() + dot + name
		}
		name = name[2 : len(name)-2]
	}
	return &ex{text: text + "(" + strings.Join(args, ", ") + ")", typ: t, kind: "call", a: e, call: name, args: args}
}

// unaries are all expressions around e.
func unaries(e *ex) (out []*ex) {
	out = append(out, paren(e), unary(e, "void", "void", "u"), unary(e, "await", "await", awaited(e.typ)), &ex{text: "v = " + e.text, typ: e.typ, kind: "assign"}, &ex{text: "v ||= " + e.text, typ: "a", kind: "assign"},
		&ex{text: e.operand() + "!", typ: without(e.typ, "u"), kind: "primary"}, unary(e, "!", "unary", "n"), &ex{text: e.operand() + " satisfies unknown", typ: e.typ, kind: "as"}, &ex{text: e.operand() + " as any as Safe", typ: "S", kind: "as"})
	if e.kind == "assign" {
		out[3], out[4] = out[0], out[0]
	}
	if without(e.typ, "PSTu") != "" || !has(e.typ, "PST") {
		return
	}
	for _, a := range [][]string{{}, {"h"}, {"undefined"}, {"any0"}, {"...hs"}, {"...hs", "h"}, {"h", "null"}} {
		out = append(out, method(e, "catch", a...))
	}
	for _, a := range [][]string{{}, {"h"}, {"h", "h"}, {"null", "() => 1"}, {"h", "null"}, {"h", "...hs"}, {"...hs", "h"}, {"h", "h", "...hs"}} {
		out = append(out, method(e, "then", a...))
	}
	return append(out, method(e, "finally", "h"), method(e, "finally"), method(e, "['catch']", "h"), method(e, "['then']", "h", "h"), method(e, "['finally']", "h"))
}

func binary(op string, a, b *ex) *ex {
	x := &ex{kind: op, a: a, b: b, text: a.operand() + " " + op + " " + b.operand()}
	switch op {
	case ",":
		x.typ = b.typ
	case "?":
		x.text, x.typ = "cond ? "+a.operand()+" : "+b.operand(), join(a.typ, b.typ)
	case "||":
		x.typ = a.typ
		if has(a.typ, "una") {
			x.typ = join(without(a.typ, "u"), b.typ)
		}
	case "??":
		x.typ = a.typ
		if has(a.typ, "ua") {
			x.typ = join(without(a.typ, "u"), b.typ)
		}
	case "&&":
		switch t := without(a.typ, "PSTpsto"); {
		case a.typ == "u":
			x.typ = "u"
		default:
			x.typ = join(t, b.typ)
		}
	}
	return x
}

type found struct {
	at      *ex
	array   bool
	handler string
}

type model struct{ *floatOpts }

func (o model) like(t string) bool {
	if t == "S" && len(o.AllowForKnownSafePromises) != 0 {
		return false
	}
	return has(t, "PS") || has(t, "T") && o.CheckThenables
}

func (o model) array(t string) bool {
	return has(t, "p") || has(t, "s") && o.like("S") || has(t, "t") && o.like("T")
}

// find is what of e is not handled.
func (o model) find(e *ex) *found {
	switch {
	case e.kind == "paren":
		return o.find(e.a)
	case e.kind == "assign":
		return nil
	case e.kind == ",":
		if f := o.find(e.a); f != nil {
			return f
		}
		return o.find(e.b)
	case e.kind == "void" && !o.IgnoreVoid:
		return o.find(e.a)
	case o.array(e.typ):
		return &found{at: e, array: true}
	case e.kind == "await" || !o.like(e.typ):
		return nil
	}
	n := 0
	switch e.call {
	case "then":
		n = 1
		fallthrough
	case "catch":
		if len(e.args) <= n {
			break
		}
		for _, a := range e.args[:n+1] {
			if strings.HasPrefix(a, "...") {
				return &found{at: e}
			}
		}
		if h := e.args[n]; h != "h" && h != "() => 1" {
			return &found{at: e, handler: h}
		}
		return nil
	case "finally":
		f := o.find(e.a)
		if f != nil {
			f.at = e
		}
		return f
	}
	switch e.kind {
	case "?":
		if f := o.find(e.b); f != nil {
			return f
		}
		return o.find(e.a)
	case "||", "&&", "??":
		if f := o.find(e.a); f != nil {
			return f
		}
		return o.find(e.b)
	}
	return &found{at: e}
}

func bare(e *ex) *ex {
	for e.kind == "paren" {
		e = e.a
	}
	return e
}

func (o model) statement(e *ex) *found {
	e = bare(e)
	if e.safe && len(o.AllowForKnownSafeCalls) != 0 || e.iife && o.IgnoreIIFE {
		return nil
	}
	return o.find(e)
}

func header() string {
	h := `interface Thenable {then(a?: any, b?: any): Thenable; tag: 1}
declare class Safe extends Promise<number> {safe: 1}
declare function h(x?: any): number; declare const hs: any; declare let v: any; declare const cond: boolean; declare function f(...a: any[]): Promise<number>; declare function mk<T>(): T; declare function g(): Thenable; declare function safe(x: 1): Promise<number>; declare function safe(): () => Promise<number>; declare const k: {p: Promise<number>; f(): Promise<number>; safe(): Promise<number>};
`
	h = strings.Replace(h, "then(a?: any, b?: any): Thenable;", "then(a?: ((x: number) => any) | null, b?: ((x: any) => any) | null, ...c: any[]): Thenable; catch(...a: any[]): Thenable; finally(a?: any): Thenable;", 1)
	for _, l := range leaves {
		for i := 0; i < 3; i++ {
			h += "declare let " + l.name + strconv.Itoa(i) + ": " + l.decl + ";\n"
		}
	}
	return h
}

func floating(es []*ex, per int, iife bool) {
	var pieces []string
	var starts [][]int
	for i := 0; i < len(es); i += per {
		text := "(async () => {\n"
		var at []int
		for _, e := range es[i:min(i+per, len(es))] {
			at = append(at, len(text))
			text += e.text + ";\n"
		}
		pieces = append(pieces, text+"}) as unknown;")
		starts = append(starts, at)
	}
	r := no_floating_promises.NoFloatingPromisesRule
	g := vlint.NewGrid("a.ts", "", header(), pieces, &r, floatOpts{})
	e := g.Error("Left side of comma", "always return true", "always truthy", "is unreachable", "spread argument", "Expected ", "never nullish", "always nullish", "always falsy", "No overload")
	vrt.Assert(e == "", "no other errors: "+e)
	vrt.Checkpoint()
	k := vrt.Choice("piece", len(pieces))
	o := floatOpts{CheckThenables: vrt.Bool("thenables"), IgnoreVoid: vrt.Bool("void")}
	if iife {
		o.IgnoreIIFE = vrt.Bool("iife")
	}
	if vrt.Bool("safe") {
		o.AllowForKnownSafePromises = []utils.TypeOrValueSpecifier{{From: utils.TypeOrValueSpecifierFromName, Name: []string{"Safe"}}}
		o.AllowForKnownSafeCalls = []utils.TypeOrValueSpecifier{{From: utils.TypeOrValueSpecifierFromName, Name: []string{"safe"}}}
	}
	ds := g.Lint(k, r, o)
	n := 0
	for i, p := range starts[k] {
		e := es[k*per+i]
		var d *rule.RuleDiagnostic
		var text string
		for n < len(ds) {
			s, q := g.At(k, ds[n])
			if q >= p+len(e.text) {
				break
			}
			vrt.Assert(d == nil, "one report: "+e.text)
			d, text = &ds[n], s
			n++
		}
		want := model{&o}.statement(e)
		vrt.Assert(want == nil || d != nil, "an unhandled promise is reported: "+e.text)
		vrt.Assert(want != nil || d == nil, "nothing else is: "+e.text)
		if d == nil {
			vrt.Reach("handled")
			continue
		}
		vrt.Assert(text == want.at.text, "what is reported: "+e.text+" is "+text)
		id := "floating"
		switch {
		case want.array:
			id = "floatingPromiseArray"
			vrt.Reach("array")
		case want.handler != "":
			id = "floatingUselessRejectionHandler"
			vrt.Reach("useless")
		default:
			vrt.Reach("floating")
		}
		if o.IgnoreVoid {
			id += "Void"
		}
		vrt.Assert(d.Message.Id == id, "as what it is: "+e.text+" is "+d.Message.Id)
		vrt.Assert(len(d.LabeledRanges) > 0 && d.LabeledRanges[0].Range == d.Range, "with its type")
		if want.handler != "" && !want.array {
			vrt.Assert(len(d.LabeledRanges) == 2, "with the handler")
			h := d.LabeledRanges[1].Range
			vrt.Assert(g.Text(k)[h.Pos():h.End()] == want.handler, "which is useless: "+e.text)
		}
		var sug []rule.RuleSuggestion
		if d.Suggestions != nil {
			sug = *d.Suggestions
		}
		words := []string{"await"}
		if o.IgnoreVoid {
			words = []string{"void", "await"}
		}
		if want.array {
			words = nil
		}
		vrt.Assert(len(sug) == len(words), "the suggestions: "+e.text)
		for j, w := range words {
			fixed := g.Fixed(k, sug[j].Fixes())
			fixed = fixed[p : len(fixed)-(len(g.Text(k))-p-len(e.text))]
			ok := fixed == w+" ("+e.text+")" || e.high() && fixed == w+" "+e.text
			if b := bare(e); w == "await" && b.kind == "void" {
				ok = fixed == strings.Replace(e.text, "void", "await", 1)
			}
			vrt.Assert(ok, "apply to the whole statement: "+fixed)
		}
	}
	vrt.Assert(n == len(ds), "all reports are of statements")
}

// Statements of any of 19 types and of 25 forms around them, one or two levels deep,
// under any options, with lists of allowed types and functions or without.
//
//vrt:opt must=handled,array,useless,floating weight=30 ckpt=1
func Verif_FloatingForms() {
	var es []*ex
	for i := range leaves {
		l := at(leaves[i].name, 0)
		es = append(es, l)
		for _, u := range unaries(l) {
			es = append(es, u)
			if l.text == "p0" || vrt.Tier() > 0 && strings.Contains("s0 t0 u0 ap0 m0", l.text) {
				es = append(es, unaries(u)...)
			}
		}
	}
	for _, c := range calls(0) {
		es = append(append(es, c), unaries(c)...)
	}
	for _, s := range []string{"(async () => 1)()", "(async function () { return 1; })()", "(() => p0)()"} {
		c := &ex{text: s, typ: "P", kind: "call", iife: true}
		es = append(es, c, paren(c), method(c, "catch", "h"), method(c, "then", "h"))
	}
	floating(es, 40, true)
}

// Statements of two operands or branches, themselves of several forms, under any options but ignoreIIFE.
//
//vrt:opt must=handled,array,floating weight=30 ckpt=1
func Verif_FloatingOperators() {
	operands := func(i int) []*ex {
		p, s, t, u := at("p", i), at("s", i), at("t", i), at("u", i)
		return []*ex{p, s, t, u, at("n", i), at("v", i), at("ap", i), at("at", i), at("any", i), at("apu", i), method(p, "catch", "h"), method(u, "catch", "h"), method(s, "finally", "h"), method(p, "then", "h", "null"), unary(p, "void", "void", "u"), {text: "v = p" + strconv.Itoa(i), typ: "P", kind: "assign"}, {text: "k.safe()", typ: "P", kind: "call", safe: true}, unary(p, "await", "await", "n")}
	}
	var es []*ex
	ls, rs := operands(0), operands(1)
	for _, op := range []string{",", "?", "||", "??", "&&"} {
		for i, l := range ls {
			for j, r := range rs {
				e := binary(op, l, r)
				es = append(es, e)
				if vrt.Tier() > 0 || (i+j)%3 == 0 {
					switch {
					case without(e.typ, "PSTu") == "" && has(e.typ, "PST"):
						es = append(es, method(e, "finally", "h"))
					case (i+j)%2 == 0:
						es = append(es, unary(e, "void", "void", "u"))
					default:
						es = append(es, binary("||", at("w", 2), e))
					}
				}
			}
		}
	}
	floating(es, 60, false)
}
