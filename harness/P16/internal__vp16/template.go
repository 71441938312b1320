// Package vp16 checks the rules about operands.
package vp16

import (
	"strconv"
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rules/restrict_template_expressions"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type tmplOpts = restrict_template_expressions.RestrictTemplateExpressionsOptions

// Options are given as they are; how they are read is another property.
//
//vrt:replace github.com/typescript-eslint/tsgolint/internal/utils.UnmarshalOptions[github.com/typescript-eslint/tsgolint/internal/rules/restrict_template_expressions.RestrictTemplateExpressionsOptions]
func tmplOptions(o any, name string) tmplOpts { return o.(tmplOpts) }

// A type, and whether a template may contain it.
type tmplType struct {
	text string
	ok   func(o *tmplOpts) bool
}

// allowedAs is for a type that is allowed when its name or that of one of its base types is.
func allowedAs(names string) func(o *tmplOpts) bool {
	return func(o *tmplOpts) bool {
		ok := false
		for _, n := range strings.Fields(names) {
			ok = vrt.Or(ok, o.Allow[0].Name[0] == n)
		}
		return ok
	}
}

func yes(*tmplOpts) bool       { return true }
func no(*tmplOpts) bool        { return false }
func anyOk(o *tmplOpts) bool   { return o.AllowAny }
func boolOk(o *tmplOpts) bool  { return o.AllowBoolean }
func nullOk(o *tmplOpts) bool  { return o.AllowNullish }
func numOk(o *tmplOpts) bool   { return o.AllowNumber }
func neverOk(o *tmplOpts) bool { return o.AllowNever }
func reOk(o *tmplOpts) bool    { return o.AllowRegExp }
func arr(f func(o *tmplOpts) bool) func(o *tmplOpts) bool {
	return func(o *tmplOpts) bool { return vrt.And(o.AllowArray, f(o)) }
}
func both(f, g func(o *tmplOpts) bool) func(o *tmplOpts) bool {
	return func(o *tmplOpts) bool { return vrt.And(f(o), g(o)) }
}
func either(f, g func(o *tmplOpts) bool) func(o *tmplOpts) bool {
	return func(o *tmplOpts) bool { return vrt.Or(f(o), g(o)) }
}

var tmplTypes = []tmplType{
	{"string", yes}, {"'a'", yes}, {"`a${number}`", yes}, {"number", numOk}, {"1", numOk}, {"bigint", numOk}, {"1n", numOk},
	{"boolean", boolOk}, {"true", boolOk}, {"null", nullOk}, {"undefined", nullOk}, {"any", anyOk}, {"unknown", no}, {"never", neverOk},
	{"RegExp", either(reOk, allowedAs("RegExp"))}, {"Error | Date", both(allowedAs("Error"), allowedAs("Date"))}, {"Error & {b: 1}", allowedAs("Error")}, {"Error", allowedAs("Error")}, {"TypeError", allowedAs("TypeError Error")}, {"Own", allowedAs("Own TypeError Error")}, {"object", no}, {"{a: 1}", no}, {"() => void", no}, {"symbol", no}, {"void", no},
	{"string[]", arr(yes)}, {"number[]", arr(numOk)}, {"[string, boolean]", arr(boolOk)}, {"any[]", arr(anyOk)}, {"readonly null[]", arr(nullOk)}, {"object[]", arr(no)}, {"never[]", arr(neverOk)}, {"RegExp[][]", arr(arr(either(reOk, allowedAs("RegExp"))))},
	{"string | number", numOk}, {"number | null", both(numOk, nullOk)}, {"string | undefined", nullOk}, {"boolean | RegExp", both(boolOk, either(reOk, allowedAs("RegExp")))}, {"string | {a: 1}", no},
	{"string & {a: 1}", yes}, {"number & {a: 1}", numOk}, {"(string & {a: 1}) | null", nullOk}, {"E", numOk}, {"F", yes}, {"G", numOk},
	{"Set<string>", allowedAs("Set")}, {"Date", allowedAs("Date")}, {"Error[]", arr(allowedAs("Error"))},
}

// unions adds the unions of two or three of nine types, and arrays of those of two.
func unions() []tmplType {
	types := append([]tmplType(nil), tmplTypes...)
	atoms := []tmplType{{"string", yes}, {"number", numOk}, {"boolean", boolOk}, {"null", nullOk}, {"RegExp", either(reOk, allowedAs("RegExp"))}, {"{a: 1}", no}, {"Error", allowedAs("Error")}, {"bigint[]", arr(numOk)}, {"undefined", nullOk}}
	for i, a := range atoms {
		for j, b := range atoms[:i] {
			types = append(types, tmplType{a.text + " | " + b.text, both(a.ok, b.ok)}, tmplType{"(" + a.text + " | " + b.text + ")[]", arr(both(a.ok, b.ok))})
			for _, c := range atoms[:j] {
				types = append(types, tmplType{a.text + " | " + b.text + " | " + c.text, both(both(a.ok, b.ok), c.ok)})
			}
		}
	}
	return types
}

// A template with one expression of 47 types, a union of two or three of nine or an array of two, or a type parameter bound by them, under any options
// and with any name of two to nine letters allowed.
//
//vrt:opt must=allowed,reported weight=20 ckpt=1
func Verif_Template() {
	types := unions()
	head := "enum E {A, B}; enum F {A = 'a', B = 'b'}; enum G {A, B = 'b'}; declare class Own extends TypeError {own: 1}; declare function tag(...x: any[]): any;\n"
	var pieces []string
	type use struct{ t, form int }
	var uses []use
	for i, t := range types {
		n := strconv.Itoa(i)
		head += "declare const x" + n + ": " + t.text + ";\n"
		for form, p := range []string{"`a${x" + n + "}`;", "function f" + n + "<T extends " + t.text + ">(x: T) { return `${x}b${'c'}`; }", "tag`${x" + n + "}`; `a`; '';"} {
			if i < len(tmplTypes) || form == i%2 {
				pieces = append(pieces, p)
				uses = append(uses, use{i, form})
			}
		}
	}
	r := restrict_template_expressions.RestrictTemplateExpressionsRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, tmplOpts{})
	vrt.Assert(g.Error("'symbol'") == "", "no type errors: "+g.Error("'symbol'"))
	vrt.Checkpoint()
	name := vrt.Str("allow", 9)
	for i := 0; i < len(name); i++ {
		c := name[i]
		vrt.Assume(vrt.Or(vrt.And(c >= 'A', c <= 'Z'), vrt.And(c >= 'a', c <= 'z')))
	}
	vrt.Assume(len(name) > 1 && name[0] <= 'Z' && name != "Array") // not of one's own enumerations or the language
	o := tmplOpts{Allow: []utils.TypeOrValueSpecifier{{From: utils.TypeOrValueSpecifierFromName, Name: []string{name}}}, AllowAny: vrt.Bool("any"), AllowArray: vrt.Bool("array"), AllowBoolean: vrt.Bool("boolean"), AllowNever: vrt.Bool("never"), AllowNullish: vrt.Bool("nullish"), AllowNumber: vrt.Bool("number"), AllowRegExp: vrt.Bool("regexp")}
	k := vrt.Choice("piece", len(pieces))
	ds := g.Lint(k, r, o)
	u := uses[k]
	want := types[u.t].ok(&o)
	if u.form == 2 {
		want = true
	} else if u.form == 1 && types[u.t].text == "any" {
		want = false // TypeScript takes it as unknown
	}
	vrt.Assert(want == (len(ds) == 0), "exactly expressions of types that are not allowed are reported")
	if len(ds) == 0 {
		vrt.Reach("allowed")
		return
	}
	vrt.Assert(len(ds) == 1, "once")
	text, _ := g.At(k, ds[0])
	vrt.Assert(text == "x"+[]string{strconv.Itoa(u.t), ""}[u.form], "where they are")
	vrt.Reach("reported")
}
