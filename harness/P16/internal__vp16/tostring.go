package vp16

import (
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rules/no_base_to_string"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type baseOpts = no_base_to_string.NoBaseToStringOptions

//vrt:replace github.com/typescript-eslint/tsgolint/internal/utils.UnmarshalOptions[github.com/typescript-eslint/tsgolint/internal/rules/no_base_to_string.NoBaseToStringOptions]
func baseOptions(o any, name string) baseOpts { return o.(baseOpts) }

// strType is a type: a named one (kind A always has its own text, N has not, U is
// unknown) whose name or one of whose base types may be ignored, or a
// union (|), intersection (&), array ([]) or tuple (,) of others.
type strType struct {
	text, op string
	kind     byte
	names    string
	of       []*strType
}

func named(text string, kind byte, names string) *strType {
	return &strType{text: text, kind: kind, names: names}
}
func union(ts ...*strType) *strType { return compose("|", ts) }
func inter(ts ...*strType) *strType { return compose("&", ts) }
func tuple(ts ...*strType) *strType { return compose(",", ts) }
func array(t *strType) *strType     { return compose("[]", []*strType{t}) }
func compose(op string, ts []*strType) *strType {
	var texts []string
	for _, t := range ts {
		texts = append(texts, t.text)
	}
	text := "(" + strings.Join(texts, " "+op+" ") + ")"
	switch op {
	case ",":
		text = "[" + strings.Join(texts, ", ") + "]"
	case "[]":
		text = texts[0] + "[]"
		if ts[0].op != "" {
			text = "(" + texts[0] + ")[]"
		}
	}
	return &strType{text: text, op: op, of: ts}
}

// is a pair of: it always has a text of its own, it never has.
type certainty struct{ always, never bool }

func (t *strType) str(o *baseOpts) certainty {
	switch t.op {
	case "":
		ign := false
		for _, n := range strings.Fields(t.names) {
			for _, i := range o.IgnoredTypeNames {
				ign = vrt.Or(ign, i == n)
			}
		}
		switch t.kind {
		case 'A':
			return certainty{true, false}
		case 'N':
			return certainty{ign, !ign}
		}
		return certainty{!o.CheckUnknown, false}
	case "[]":
		return t.of[0].str(o)
	case ",":
		r := certainty{true, false}
		for _, e := range t.of {
			c := e.str(o)
			r = certainty{vrt.And(r.always, c.always), vrt.Or(r.never, c.never)}
		}
		return r
	}
	var cs []certainty
	for _, e := range t.of {
		cs = append(cs, e.str(o))
	}
	return t.fold(cs)
}

func (t *strType) fold(cs []certainty) certainty {
	if t.op == "|" {
		r := certainty{true, true}
		for _, c := range cs {
			r = certainty{vrt.And(r.always, c.always), vrt.And(r.never, c.never)}
		}
		return r
	}
	some := false
	for _, c := range cs {
		some = vrt.Or(some, c.always)
	}
	return certainty{some, !some}
}

func (t *strType) join(o *baseOpts) certainty {
	switch t.op {
	case "":
		return certainty{true, false}
	case "[]", ",":
		return t.str(o)
	}
	var cs []certainty
	for _, e := range t.of {
		cs = append(cs, e.join(o))
	}
	return t.fold(cs)
}

func strTypes() []*strType {
	str, num, obj, c, d := named("string", 'A', ""), named("number", 'A', ""), named("{a: 1}", 'N', ""), named("C", 'N', "C"), named("D", 'N', "D C")
	own, err, terr, unk, null := named("Own", 'A', ""), named("Error", 'N', "Error"), named("TypeError", 'N', "TypeError Error"), named("unknown", 'U', ""), named("null", 'A', "")
	return []*strType{str, num, obj, c, d, own, err, terr, unk, null,
		named("boolean", 'A', ""), named("bigint", 'A', ""), named("symbol", 'A', ""), named("undefined", 'A', ""), named("any", 'A', ""), named("object", 'N', ""), named("{}", 'N', ""), named("() => void", 'A', ""), named("Sub", 'A', ""), named("I", 'A', ""), named("Val", 'A', ""), named("Map<string, {}>", 'N', ""), named("Loc", 'A', ""), named("G<string>", 'N', ""), named("H", 'N', "H"),
		union(str, num), union(str, obj), union(obj, c), union(c, d), union(c, null), union(err, terr), union(own, c), union(unk),
		inter(str, obj), inter(c, named("{b: 1}", 'N', "")), inter(c, own), inter(named("{b: 1}", 'N', ""), obj),
		array(str), array(obj), array(c), array(unk), array(array(c)), array(union(str, c)), array(union(c, d)), array(array(num)),
		tuple(str, num), tuple(str, c), tuple(obj, union(str, c)), tuple(union(str, c), num), tuple(), tuple(unk, num),
		union(array(str), c), union(array(c), str), union(tuple(c), array(obj)), inter(array(c), named("{b: 1}", 'N', "")), inter(array(str), obj), tuple(array(c), own), array(tuple(c, str)),
	}
}

var baseForms = []string{"'' + x;", "x + '';", "`a${x}b`;", "`${x}`;", "String(x);", "x.toString();", "x.toLocaleString();", "x.join();", "x.join('');", "y += x;",
	"tag`${x}`; x - y; x.valueOf(); x; [x]; x.toString; x.join; String(); foo(x); '' - x; 1 + 1; typeof x + ''; String; y = y + 'a'; x === y; join(x); toString(x);"}

// Texts of any of 58 types, as such or of type parameters bound by them, made in ten ways, and other uses,
// with any ignored name of up to five letters, another one, and either way to take unknown types.
//
//vrt:opt must=always,never,sometimes,other weight=30 ckpt=1
func Verif_ToString() {
	head := "declare class C {c: 1} declare class D extends C {d: 1} declare class Own {toString(): string} declare class Sub extends Own {s: 1} interface I {toString(): string; toLocaleString(): string} interface Val {valueOf(): number} interface Loc {toLocaleString(): string}\n" +
		"interface G<T> {g: T} interface H extends G<number> {h: 1}\n" +
		"declare function tag(...a: any[]): any; declare function foo(...a: any[]): any; declare function join(...a: any[]): any; declare function toString(...a: any[]): any; declare let y: string;"
	types := strTypes()
	var pieces []string
	for _, t := range types {
		for i, f := range baseForms {
			if i%2 == 0 {
				pieces = append(pieces, "declare const x: "+t.text+"; "+f)
			} else {
				pieces = append(pieces, "function f<T extends "+t.text+">(x: T) { "+f+" }")
			}
		}
	}
	r := no_base_to_string.NoBaseToStringRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, baseOpts{})
	e := g.Error("does not exist on type", "cannot be applied", "is possibly", "is of type 'unknown'", "Cannot redeclare", "unused", "arithmetic operation", "no overlap", "not assignable", "implicit", "not callable", "must be of type", "Implicit conversion")
	vrt.Assert(e == "", "no errors: "+e)
	vrt.Checkpoint()
	o := baseOpts{CheckUnknown: vrt.Bool("unknown")}
	name := vrt.Str("ignored", 5)
	for i := 0; i < len(name); i++ {
		vrt.Assume(vrt.Or(vrt.And(name[i] >= 'a', name[i] <= 'z'), vrt.And(name[i] >= 'A', name[i] <= 'Z')))
	}
	o.IgnoredTypeNames = []string{name, []string{"C", "TypeError"}[vrt.Choice("other", 2)]}
	i, form := vrt.Choice("type", len(types)), vrt.Choice("form", len(baseForms))
	ds := g.Lint(i*len(baseForms)+form, r, o)
	t := types[i]
	c := t.str(&o)
	if form == 7 || form == 8 {
		c = t.join(&o)
	}
	if form%2 == 1 && t.text == "any" {
		c = certainty{!o.CheckUnknown, false} // TypeScript takes it as unknown
		if form == 7 {
			c = certainty{true, false}
		}
	}
	if form == len(baseForms)-1 {
		vrt.Assert(len(ds) == 0, "nothing else is reported")
		vrt.Reach("other")
		return
	}
	vrt.Assert(c.always == (len(ds) == 0), "exactly what has no text of its own is reported")
	if len(ds) == 0 {
		vrt.Reach("always")
		return
	}
	vrt.Assert(len(ds) == 1, "once")
	text, at := g.At(i*len(baseForms)+form, ds[0])
	vrt.Assert(text == "x" && at > 12, "where it is")
	vrt.Assert((ds[0].Message.Id == "baseArrayJoin") == (form == 7 || form == 8), "as what it is")
	vrt.Assert(strings.Contains(ds[0].Message.Description, " will ") == c.never && strings.Contains(ds[0].Message.Description, " may ") == !c.never, "and whether it is so always or sometimes")
	if c.never {
		vrt.Reach("never")
	} else {
		vrt.Reach("sometimes")
	}
}

// Tuples, unions and intersections of two or three of five types, and arrays of unions of two, made
// a text or joined, with any ignored name of up to two letters and either way to take unknown types.
//
//vrt:opt must=always,never,sometimes weight=20 ckpt=1
func Verif_ToStringNested() {
	head := "declare class C {c: 1} declare class Own {toString(): string}\n"
	c, own := named("C", 'N', "C"), named("Own", 'A', "")
	atoms := []*strType{named("string", 'A', ""), c, union(named("number", 'A', ""), named("{a: 1}", 'N', "")), named("unknown", 'U', ""), array(union(c, own))}
	var types []*strType
	for i, a := range atoms {
		for j, b := range atoms {
			types = append(types, tuple(a, b))
			if i < j && i != 3 && j != 3 {
				types = append(types, union(a, b), array(union(a, b)), tuple(union(a, b), own), union(tuple(a, b), array(own)))
			}
			for _, d := range atoms[:4] {
				if i < 4 && j < 4 {
					types = append(types, tuple(a, b, d))
				}
			}
		}
	}
	forms := []string{"String(x);", "x.join();"}
	var pieces []string
	for i, t := range types {
		pieces = append(pieces, "declare const x: "+t.text+"; "+forms[i%2])
	}
	r := no_base_to_string.NoBaseToStringRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, baseOpts{})
	e := g.Error("does not exist on type")
	vrt.Assert(e == "", "no errors: "+e)
	vrt.Checkpoint()
	o := baseOpts{CheckUnknown: vrt.Bool("unknown"), IgnoredTypeNames: []string{vrt.Str("ignored", 2)}}
	k := vrt.Choice("piece", len(pieces))
	ds := g.Lint(k, r, o)
	want := types[k].str(&o)
	if k%2 == 1 {
		want = types[k].join(&o)
	}
	vrt.Assert(want.always == (len(ds) == 0), "exactly what has no text of its own is reported")
	if len(ds) == 0 {
		vrt.Reach("always")
		return
	}
	vrt.Assert(len(ds) == 1 && strings.Contains(ds[0].Message.Description, " will ") == want.never, "and whether it is so always or sometimes")
	if want.never {
		vrt.Reach("never")
	} else {
		vrt.Reach("sometimes")
	}
}

// Three of seven types that contain each other, in any order: what is reported about one
// does not depend on those looked at before.
//
//vrt:opt must=some,none ckpt=1
func Verif_ToStringOrder() {
	head := "type P = [Q, string]; type Q = P | {}; type A = B[]; type B = A | {a: 1}; type R = [R, string]; type S = R[] | S[]; type W = Q[] & {b: 1};\n" +
		"declare const p: P, q: Q, a: A, b: B, r: R, s: S, w: W;"
	names := "pqabrsw"
	n := len(names)
	var pieces []string
	use := func(i int) string {
		if names[i] == 'w' || names[i] == 's' {
			return names[i:i+1] + ".join();"
		}
		return "`${" + names[i:i+1] + "}`;"
	}
	for i := range names {
		pieces = append(pieces, use(i))
	}
	for i := range names {
		for j := range names {
			for k := range names {
				pieces = append(pieces, use(i)+use(j)+use(k))
			}
		}
	}
	r := no_base_to_string.NoBaseToStringRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, baseOpts{})
	vrt.Assert(g.Error() == "", "no errors: "+g.Error())
	vrt.Checkpoint()
	o := baseOpts{CheckUnknown: vrt.Bool("unknown")}
	i, j, k := vrt.Choice("first", n), vrt.Choice("second", n), vrt.Choice("third", n)
	alone := len(g.Lint(i, r, o)) + len(g.Lint(j, r, o)) + len(g.Lint(k, r, o))
	all := len(g.Lint(n+(i*n+j)*n+k, r, o))
	vrt.Assert(all == alone, "each is reported as it is alone")
	if all > 0 {
		vrt.Reach("some")
	} else {
		vrt.Reach("none")
	}
}
