package vp16

import (
	"strconv"
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rules/no_unsafe_unary_minus"
	"github.com/typescript-eslint/tsgolint/internal/rules/restrict_plus_operands"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type plusOpts = restrict_plus_operands.RestrictPlusOperandsOptions

//vrt:replace github.com/typescript-eslint/tsgolint/internal/utils.UnmarshalOptions[github.com/typescript-eslint/tsgolint/internal/rules/restrict_plus_operands.RestrictPlusOperandsOptions]
func plusOptions(o any, name string) plusOpts { return o.(plusOpts) }

// A type and what its parts are: s(tring) n(umber) b(igint) B(oolean) u(ndefined or null)
// a(ny) r(egular expression) o(bject) x (never allowed).
type plusType struct{ text, parts string }

var plusTypes = []plusType{
	{"string", "s"}, {"'a'", "s"}, {"number", "n"}, {"1 | 2", "n"}, {"bigint", "b"}, {"boolean", "B"}, {"true", "B"}, {"null", "u"}, {"undefined", "u"},
	{"any", "a"}, {"unknown", "x"}, {"never", "x"}, {"symbol", "x"}, {"RegExp", "r"}, {"{a: 1}", "o"}, {"string[]", "o"}, {"Date", "o"}, {"() => void", "o"},
	{"string | number", "sn"}, {"number | undefined", "nu"}, {"bigint | number", "bn"}, {"string | RegExp", "sr"}, {"string | bigint", "sb"}, {"string | {a: 1}", "so"}, {"boolean | null", "Bu"}, {"string | symbol", "sx"},
	{"E", "n"}, {"F", "s"}, {"`a${number}`", "s"},
}

// invalid tells whether an operand with these parts must not be added to the other.
func (t plusType) invalid(other plusType, o *plusOpts) bool {
	bad := false
	for _, c := range t.parts {
		switch c {
		case 'x', 'o':
			bad = true
		case 'a':
			bad = vrt.Or(bad, !o.AllowAny)
		case 'B':
			bad = vrt.Or(bad, !o.AllowBoolean)
		case 'u':
			bad = vrt.Or(bad, !o.AllowNullish)
		case 'r':
			bad = vrt.Or(bad, vrt.Or(!o.AllowRegExp, other.parts == "n"))
		}
	}
	return bad
}

// unclear tells whether a regular expression is added to something that may be a number.
func unclear(l, r plusType) bool {
	return strings.Contains(l.parts, "r") && (len(r.parts) > 1 || r.text == "E")
}

func mixed(l, r plusType, a, b string) bool {
	return strings.Contains(l.parts, a) && strings.Contains(r.parts, b) || strings.Contains(r.parts, a) && strings.Contains(l.parts, b)
}

// Additions of any two of 29 types (but of regular expressions and what may be a number),
// with or without parentheses or as compound assignments, under any options.
//
//vrt:opt must=allowed,operand,mismatched,bigint weight=30 ckpt=1
func Verif_Plus() {
	head := "enum E {A, B}; enum F {A = 'a', B = 'b'};\n"
	for i, t := range plusTypes {
		n := strconv.Itoa(i)
		head += "declare let x" + n + ": " + t.text + "\n"
	}
	var pieces []string
	var forms []string
	for i := range plusTypes {
		for j := range plusTypes {
			n, m := "x"+strconv.Itoa(i), "x"+strconv.Itoa(j)
			form := []string{n + " + " + m, n + " += " + m, n + " + (" + m + ")", "(" + n + " + " + m + ")"}[(i+j)%4]
			forms = append(forms, form)
			pieces = append(pieces, form+";")
		}
	}
	r := restrict_plus_operands.RestrictPlusOperandsRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, plusOpts{})
	vrt.Assert(g.Error("Operator '+", "is not assignable to type", "is possibly", "is of type 'unknown'", "does not exist on type 'never'", "cannot be applied to type 'symbol'", "is constant") == "", "no other errors: "+g.Error("Operator '+", "is not assignable to type", "is possibly", "is of type 'unknown'"))
	vrt.Checkpoint()
	o := plusOpts{AllowAny: vrt.Bool("any"), AllowBoolean: vrt.Bool("boolean"), AllowNullish: vrt.Bool("nullish"), AllowNumberAndString: vrt.Bool("mix"), AllowRegExp: vrt.Bool("regexp"), SkipCompoundAssignments: vrt.Bool("skip")}
	k := vrt.Choice("left", len(plusTypes))*len(plusTypes) + vrt.Choice("right", len(plusTypes))
	i, j := k/len(plusTypes), k%len(plusTypes)
	lt, rt := plusTypes[i], plusTypes[j]
	if unclear(lt, rt) || unclear(rt, lt) {
		vrt.Stop()
	}
	ds := g.Lint(k, r, o)
	var lefts, rights, wholes int
	var id string
	for _, d := range ds {
		text, at := g.At(k, d)
		switch {
		case d.Message.Id != "invalid":
			wholes++
			id = d.Message.Id
			vrt.Assert(text == strings.Trim(forms[k], "()") || text == forms[k], "the whole addition")
			vrt.Assert(len(d.LabeledRanges) == 2, "with its operands")
		case text == "x"+strconv.Itoa(i) && at <= 1:
			lefts++
		case text == "x"+strconv.Itoa(j) || text == "(x"+strconv.Itoa(j)+")":
			rights++
		default:
			vrt.Fail("where it is")
		}
	}
	skip := vrt.And((i+j)%4 == 1, o.SkipCompoundAssignments)
	li := vrt.And(!skip, lt.invalid(rt, &o))
	ri := vrt.And(!skip, rt.invalid(lt, &o))
	mix := mixed(lt, rt, "s", "n") || mixed(lt, rt, "s", "b")
	big := mixed(lt, rt, "n", "b")
	bad := vrt.And(vrt.And(!skip, vrt.And(!li, !ri)), vrt.Or(big, vrt.And(mix, !o.AllowNumberAndString)))
	if lt.text == rt.text && lt.parts != "sn" && lt.parts != "bn" && lt.parts != "sb" {
		vrt.Assert(!bad, "the same type twice is fine")
	}
	vrt.Assert(li == (lefts == 1) && lefts <= 1, "the left operand is reported exactly when its type is not allowed")
	vrt.Assert(ri == (rights == 1) && rights <= 1, "the right operand is reported exactly when its type is not allowed")
	vrt.Assert(bad == (wholes == 1) && wholes <= 1, "the addition is reported exactly when the types must not be mixed")
	if bad && !(big && mix) {
		vrt.Assert(id == map[bool]string{true: "bigintAndNumber", false: "mismatched"}[big], "as what it is")
	}
	switch {
	case len(ds) == 0:
		vrt.Reach("allowed")
	case wholes == 0:
		vrt.Reach("operand")
	case id == "mismatched":
		vrt.Reach("mismatched")
	default:
		vrt.Reach("bigint")
	}
}

// Other operators, additions of type parameters, and what the reports say, under any options.
//
//vrt:opt must=other,reported ckpt=1
func Verif_PlusText() {
	pieces := []string{"x - y; x * y; x -= 1; x == y; [x, y]; -x; +x;", "function f<T extends boolean>(x: T) { return x + ''; }", "function g<T extends string>(x: T) { return x + ''; }", "function h<T extends unknown>(x: T) { return '' + x; }",
		"x + y + true;", "tag('a' + null);"}
	r := restrict_plus_operands.RestrictPlusOperandsRule
	g := vlint.NewGrid("a.ts", "", "declare let x: number, y: number; declare function tag(x: string): void;", pieces, &r, plusOpts{})
	vrt.Assert(g.Error("Operator '+", "no overlap", "unused") == "", "no errors: "+g.Error("Operator '+'"))
	vrt.Checkpoint()
	o := plusOpts{AllowAny: vrt.Bool("any"), AllowBoolean: vrt.Bool("boolean"), AllowNullish: vrt.Bool("nullish"), AllowNumberAndString: vrt.Bool("mix"), AllowRegExp: vrt.Bool("regexp"), SkipCompoundAssignments: vrt.Bool("skip")}
	k := vrt.Choice("piece", len(pieces))
	ds := g.Lint(k, r, o)
	want := k == 3
	switch k {
	case 1, 4:
		want = !o.AllowBoolean
	case 5:
		want = !o.AllowNullish
	}
	vrt.Assert(want == (len(ds) == 1) && len(ds) <= 1, "exactly what must not be added")
	if len(ds) == 0 {
		vrt.Reach("other")
		return
	}
	vrt.Reach("reported")
	h := ds[0].Message.Help
	vrt.Assert(strings.Contains(h, "`any`") == o.AllowAny, "any")
	vrt.Assert(strings.Contains(h, "`boolean`") == o.AllowBoolean, "boolean")
	vrt.Assert(strings.Contains(h, "`null`") == o.AllowNullish && strings.Contains(h, "`undefined`") == o.AllowNullish, "nullish")
	vrt.Assert(strings.Contains(h, "`RegExp`") == o.AllowRegExp, "regular expressions")
	vrt.Assert(strings.Contains(ds[0].Message.Description, []string{"", "'boolean'", "", "'unknown'", "'boolean'", "'null'"}[k]), "the type")
}

// Negations of one of 22 types or unions of two or three of nine, or of a type parameter bound by it, and other unary operators.
//
//vrt:opt must=reported,allowed weight=20 ckpt=1
func Verif_Minus() {
	types := []plusType{{"number", "n"}, {"1", "n"}, {"bigint", "n"}, {"1n", "n"}, {"any", "n"}, {"never", "n"}, {"number | bigint", "n"}, {"E", "n"}, {"E.A", "n"}, {"1 | 2n", "n"},
		{"string", "x"}, {"boolean", "x"}, {"null", "x"}, {"undefined", "x"}, {"unknown", "x"}, {"{}", "x"}, {"RegExp", "x"}, {"symbol", "x"}, {"number | string", "nx"}, {"bigint | null", "nx"}, {"F", "x"}, {"void", "x"}}
	head := "enum E {A, B}; enum F {A = 'a', B = 'b'};\n"
	var pieces []string
	atoms := []plusType{{"number", "n"}, {"bigint", "n"}, {"E", "n"}, {"string", "x"}, {"boolean", "x"}, {"null", "x"}, {"undefined", "x"}, {"symbol", "x"}, {"RegExp", "x"}}
	simple := len(types)
	for i, a := range atoms {
		for j, b := range atoms[:i] {
			types = append(types, plusType{a.text + " | " + b.text, a.parts + b.parts})
			for _, c := range atoms[:j] {
				types = append(types, plusType{a.text + " | " + b.text + " | " + c.text, a.parts + b.parts + c.parts})
			}
		}
	}
	type use struct{ t, form int }
	var uses []use
	for i, t := range types {
		n := strconv.Itoa(i)
		head += "declare let x" + n + ": " + t.text + ";\n"
		p := "function f" + n + "<T extends " + t.text + ">(x: T) { return - x; }"
		if t.text == "any" {
			p = "-x" + n + ";"
		}
		for form, p := range []string{"- x" + n + ";", p, "+x" + n + "; !x" + n + "; ~x" + n + "; typeof x" + n + "; void x" + n + "; 1 - +x" + n + ";"} {
			if i < simple || form == i%2 {
				pieces = append(pieces, p)
				uses = append(uses, use{i, form})
			}
		}
	}
	r := no_unsafe_unary_minus.NoUnsafeUnaryMinusRule
	g := vlint.NewGrid("a.ts", "", head, pieces, &r, nil)
	vrt.Checkpoint()
	k := vrt.Choice("piece", len(pieces))
	ds := g.Lint(k, r, nil)
	want := uses[k].form < 2 && strings.Contains(types[uses[k].t].parts, "x")
	vrt.Assert(len(ds) == map[bool]int{true: 1}[want], "exactly what is not a number is reported")
	if !want {
		vrt.Reach("allowed")
		return
	}
	text, _ := g.At(k, ds[0])
	vrt.Assert(strings.HasPrefix(text, "- x"), "where it is")
	vrt.Reach("reported")
}
