// Package vp15 checks how rule options are read.
package vp15

import (
	"strings"

	"github.com/go-json-experiment/json"
	"github.com/typescript-eslint/tsgolint/internal/rules/return_await"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type option struct{ key, def string }

type ruleOptions struct {
	name string
	opts []option
	read func(o any) string
}

const absent = "\x00absent"

// text is a string of one character or two.
func text(key string) string {
	b := vrt.Byte(key)
	vrt.Assume(b >= 0x20 && b < 0x7f)
	if vrt.Choice(key+" long", 2) == 1 {
		return "<" + string([]byte{b}) + "\""
	}
	return string([]byte{b})
}

func list(key string) []any {
	switch vrt.Choice(key+" length", 3) {
	case 0:
		return []any{}
	case 1:
		return []any{text(key)}
	}
	return []any{"A", text(key)}
}

// choice is a value of an option as it is given and as it is read.
func choice(o option) (given, want any) {
	switch vrt.Choice(o.key, 3) {
	case 0:
		return absent, byDefault(o)
	case 1:
		return nil, byDefault(o)
	}
	if o.def[0] == 't' || o.def[0] == 'f' {
		v := vrt.Bool(o.key + " value")
		return v, v
	}
	switch o.def[:2] {
	case "s:":
		t := text(o.key)
		return t, t
	case "l:":
		l := list(o.key)
		return l, l
	case "a:":
		t := text(o.key)
		obj := func(kv ...any) map[string]any {
			m := map[string]any{}
			for i := 0; i < len(kv); i += 2 {
				m[kv[i].(string)] = kv[i+1]
			}
			return m
		}
		one := func(t any) []any { return []any{t} }
		switch vrt.Choice(o.key+" value", 8) {
		case 6:
			v := one(obj("from", "package", "name", []any{"A", t}, "package", "p"))
			return v, v
		case 7:
			v := one(obj("from", "file", "name", []any{"A", t, "B"}, "path", "p"))
			return v, v
		case 0:
			return []any{}, []any{}
		case 1:
			return []any{"A", t}, []any{"A", t}
		case 2:
			return one(obj("from", "lib", "name", t)), one(obj("from", "lib", "name", one(t)))
		case 3:
			v := one(obj("from", "lib", "name", []any{t, "B"}))
			return v, v
		case 4:
			return []any{obj("from", "package", "name", "A", "package", t), "C"}, []any{obj("from", "package", "name", one("A"), "package", t), "C"}
		default:
			return []any{obj("from", "file", "name", one("A"), "path", t), obj("from", "file", "name", "E")}, []any{obj("from", "file", "name", one("A"), "path", t), obj("from", "file", "name", one("E"))}
		}
	case "o:", "e:":
		v := []any{"always", "never"}[vrt.Choice(o.key+" value", 2)]
		return v, v
	case "p:":
		if vrt.Choice(o.key+" object", 2) == 0 {
			v := vrt.Bool(o.key + " value")
			return v, v
		}
		m := map[string]any{}
		w := map[string]any{"bigint": false, "boolean": false, "number": false, "string": false}
		for _, k := range []string{"string", "number"} {
			if vrt.Choice(o.key+" "+k, 2) == 1 {
				v := vrt.Bool(o.key + " value of " + k)
				m[k], w[k] = v, v
			}
		}
		return m, w
	}
	panic(o.def)
}

// Options of each of 33 kinds of objects, any two options given (absent, null or any
// boolean, texts of one printable character or three, lists of up to two texts, lists of
// specifiers of each kind), all others absent or all given as null, with or without an
// unknown one, or nothing at all: each is read as it is given, or as its documented default.
//
//vrt:opt must=nothing,object weight=30
func Verif_Options() {
	r := rules[vrt.Choice("rule", len(rules))]
	a := vrt.Choice("first", len(r.opts))
	b := a + vrt.Choice("second", len(r.opts)-a)
	given, want := map[string]any{}, map[string]any{}
	rest := vrt.Choice("rest", 4)
	for i, o := range r.opts {
		if i == a || i == b {
			g, w := choice(o)
			if g != absent {
				given[o.key] = g
			}
			want[o.key] = w
		} else {
			want[o.key] = byDefault(o)
			if rest == 1 {
				given[o.key] = nil
			}
		}
	}
	if rest == 2 {
		given["zzz"] = true
	}
	var in any = given
	if len(given) == 0 && rest == 3 {
		in = nil
		vrt.Reach("nothing")
	} else {
		vrt.Reach("object")
	}
	var got map[string]any
	vrt.Assert(json.Unmarshal([]byte(r.read(in)), &got) == nil, "they are read")
	for _, o := range r.opts {
		v, ok := got[o.key]
		w := want[o.key]
		if !ok {
			l, isList := w.([]any)
			vrt.Assert(w == nil || isList && len(l) == 0 || w == "", r.name+" "+o.key+": present")
			continue
		}
		vrt.Assert(same(v, w), r.name+": "+o.key+" is read as it is given, or as its default")
	}
}

// byDefault is an option that is not given.
func byDefault(o option) any {
	if o.def[0] == 't' || o.def[0] == 'f' {
		return o.def == "true"
	}
	l := []any{}
	if len(o.def) > 2 {
		for _, s := range strings.Split(o.def[2:], ",") {
			l = append(l, s)
		}
	}
	switch o.def[:2] {
	case "s:":
		return o.def[2:]
	case "l:":
		return l
	case "a:":
		if len(l) > 0 {
			return []any{map[string]any{"from": "lib", "name": l}}
		}
		return l
	}
	return nil
}

func same(a, b any) bool {
	switch a := a.(type) {
	case map[string]any:
		m, ok := b.(map[string]any)
		if !ok || len(m) != len(a) {
			return false
		}
		for k, v := range a {
			w, ok := m[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	case []any:
		l, ok := b.([]any)
		if !ok || len(l) != len(a) {
			return false
		}
		for i := range a {
			if !same(a[i], l[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// The only option that is a text of its own: absent, null or any of its values.
//
//vrt:opt must=text
func Verif_ReturnAwait() {
	names := []string{"always", "error-handling-correctness-only", "in-try-catch", "never"}
	i := vrt.Choice("value", len(names)+1)
	var in any
	want := "in-try-catch"
	if i < len(names) {
		in, want = names[i], names[i]
		vrt.Reach("text")
	}
	got, _ := read[return_await.ReturnAwaitOptions](in)
	vrt.Assert(got == `"`+want+`"`, "it is read as it is given, or as its default")
}
