package vmodel

import (
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// A model of github.com/go-json-experiment/json (v2 semantics: exact member
// names, duplicate names and invalid UTF-8 rejected, unknown members ignored,
// nil slices and maps marshalled as empty).

type jsonError struct{ msg string }

func (e *jsonError) Error() string { return e.msg }

type jkind int

const (
	jNull jkind = iota
	jFalse
	jTrue
	jNumber
	jString
	jArray
	jObject
)

type jnode struct {
	k    jkind
	s    string // decoded string or number text
	raw  string
	key  []string
	kids []*jnode
}

type jparser struct {
	s   string
	i   int
	err string
}

func (p *jparser) fail(m string) *jnode {
	if p.err == "" {
		p.err = m
	}
	return nil
}

func (p *jparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) lit(w string, k jkind) *jnode {
	if len(p.s)-p.i < len(w) || p.s[p.i:p.i+len(w)] != w {
		return p.fail("jsontext: invalid literal")
	}
	p.i += len(w)
	return &jnode{k: k, raw: w}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jparser) hex4() int {
	if len(p.s)-p.i < 4 {
		return -1
	}
	v := 0
	for k := 0; k < 4; k++ {
		h := hexv(p.s[p.i+k])
		if h < 0 {
			return -1
		}
		v = v*16 + h
	}
	p.i += 4
	return v
}

func (p *jparser) str() (string, bool) {
	// at the opening quote
	p.i++
	var out []byte
	for {
		if p.i >= len(p.s) {
			p.fail("jsontext: unexpected EOF")
			return "", false
		}
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out), true
		case c < 0x20:
			p.fail("jsontext: invalid character in string")
			return "", false
		case c == '\\':
			p.i++
			if p.i >= len(p.s) {
				p.fail("jsontext: unexpected EOF")
				return "", false
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				v := p.hex4()
				if v < 0 {
					p.fail("jsontext: invalid escape sequence")
					return "", false
				}
				if v >= 0xd800 && v < 0xe000 {
					if v >= 0xdc00 || len(p.s)-p.i < 6 || p.s[p.i] != '\\' || p.s[p.i+1] != 'u' {
						p.fail("jsontext: invalid surrogate pair")
						return "", false
					}
					p.i += 2
					lo := p.hex4()
					if lo < 0xdc00 || lo >= 0xe000 {
						p.fail("jsontext: invalid surrogate pair")
						return "", false
					}
					v = 0x10000 + (v-0xd800)<<10 + (lo - 0xdc00)
				}
				out = utf8.AppendRune(out, rune(v))
			default:
				p.fail("jsontext: invalid escape sequence")
				return "", false
			}
		case c < 0x80:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			if r == utf8.RuneError && n == 1 {
				p.fail("jsontext: invalid UTF-8")
				return "", false
			}
			out = append(out, p.s[p.i:p.i+n]...)
			p.i += n
		}
	}
}

func (p *jparser) num() *jnode {
	b := p.i
	if p.s[p.i] == '-' {
		p.i++
	}
	if p.i >= len(p.s) || p.s[p.i] < '0' || p.s[p.i] > '9' {
		return p.fail("jsontext: invalid number")
	}
	if p.s[p.i] == '0' {
		p.i++
	} else {
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		k := p.i
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
		if k == p.i {
			return p.fail("jsontext: invalid number")
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}
		k := p.i
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
		if k == p.i {
			return p.fail("jsontext: invalid number")
		}
	}
	return &jnode{k: jNumber, s: p.s[b:p.i], raw: p.s[b:p.i]}
}

func (p *jparser) value(depth int) *jnode {
	p.ws()
	if p.i >= len(p.s) {
		return p.fail("jsontext: unexpected EOF")
	}
	if depth > 100 {
		return p.fail("jsontext: too deep")
	}
	b := p.i
	switch c := p.s[p.i]; {
	case c == 'n':
		return p.lit("null", jNull)
	case c == 't':
		return p.lit("true", jTrue)
	case c == 'f':
		return p.lit("false", jFalse)
	case c == '"':
		s, ok := p.str()
		if !ok {
			return nil
		}
		return &jnode{k: jString, s: s, raw: p.s[b:p.i]}
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	case c == '[':
		n := &jnode{k: jArray}
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			n.raw = p.s[b:p.i]
			return n
		}
		for {
			e := p.value(depth + 1)
			if e == nil {
				return nil
			}
			n.kids = append(n.kids, e)
			p.ws()
			if p.i >= len(p.s) {
				return p.fail("jsontext: unexpected EOF")
			}
			if p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.s[p.i] == ']' {
				p.i++
				n.raw = p.s[b:p.i]
				return n
			}
			return p.fail("jsontext: invalid character in array")
		}
	case c == '{':
		n := &jnode{k: jObject}
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			n.raw = p.s[b:p.i]
			return n
		}
		for {
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return p.fail("jsontext: object member name must be a string")
			}
			k, ok := p.str()
			if !ok {
				return nil
			}
			for _, o := range n.key {
				if o == k {
					return p.fail("jsontext: duplicate object member name")
				}
			}
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return p.fail("jsontext: missing character ':' after object name")
			}
			p.i++
			e := p.value(depth + 1)
			if e == nil {
				return nil
			}
			n.key = append(n.key, k)
			n.kids = append(n.kids, e)
			p.ws()
			if p.i >= len(p.s) {
				return p.fail("jsontext: unexpected EOF")
			}
			if p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.s[p.i] == '}' {
				p.i++
				n.raw = p.s[b:p.i]
				return n
			}
			return p.fail("jsontext: invalid character in object")
		}
	}
	return p.fail("jsontext: invalid character at start of value")
}

func jparse(s string) (*jnode, error) {
	p := &jparser{s: s}
	n := p.value(0)
	if n != nil {
		p.ws()
		if p.i != len(p.s) {
			p.fail("jsontext: invalid character after top-level value")
		}
	}
	if p.err != "" {
		return nil, &jsonError{p.err}
	}
	return n, nil
}

type unmarshaler interface{ UnmarshalJSON([]byte) error }
type marshaler interface{ MarshalJSON() ([]byte, error) }

func terr(n *jnode, t reflect.Type) error {
	k := "value"
	switch n.k {
	case jNumber:
		k = "number " + n.s
	case jString:
		k = "string"
	case jTrue, jFalse:
		k = "boolean"
	case jArray:
		k = "array"
	case jObject:
		k = "object"
	}
	return &jsonError{"json: cannot unmarshal JSON " + k + " into Go " + t.String()}
}

func tag(f reflect.StructField) (name string, omitempty, omitzero, skip bool) {
	name = f.Name
	t, ok := tagLookup(string(f.Tag), "json")
	if !ok {
		return name, false, false, f.PkgPath != ""
	}
	if t == "-" {
		return "", false, false, true
	}
	if f.PkgPath != "" {
		return "", false, false, true
	}
	parts := strings.Split(t, ",")
	if parts[0] != "" {
		name = parts[0]
	}
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omitempty = true
		}
		if p == "omitzero" {
			omitzero = true
		}
	}
	return
}

func tagLookup(t, key string) (string, bool) {
	for t != "" {
		i := strings.Index(t, ":\"")
		if i < 0 {
			return "", false
		}
		k := strings.TrimSpace(t[:i])
		rest := t[i+2:]
		j := strings.IndexByte(rest, '"')
		if j < 0 {
			return "", false
		}
		if k == key {
			return rest[:j], true
		}
		t = rest[j+1:]
	}
	return "", false
}

func tree(n *jnode) any {
	switch n.k {
	case jNull:
		return nil
	case jTrue:
		return true
	case jFalse:
		return false
	case jString:
		return n.s
	case jNumber:
		f, _ := strconv.ParseFloat(n.s, 64)
		return f
	case jArray:
		a := []any{}
		for _, e := range n.kids {
			a = append(a, tree(e))
		}
		return a
	}
	m := map[string]any{}
	for i, k := range n.key {
		m[k] = tree(n.kids[i])
	}
	return m
}

func decode(n *jnode, v reflect.Value) error {
	t := v.Type()
	if t.Kind() != reflect.Pointer && v.CanAddr() {
		if u, ok := v.Addr().Interface().(unmarshaler); ok {
			return u.UnmarshalJSON([]byte(n.raw))
		}
	}
	switch t.Kind() {
	case reflect.Pointer:
		if n.k == jNull {
			v.SetZero()
			return nil
		}
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		return decode(n, v.Elem())
	case reflect.Interface:
		if n.k == jNull {
			v.SetZero()
			return nil
		}
		if t.NumMethod() != 0 {
			return terr(n, t)
		}
		x := tree(n)
		v.Set(reflect.ValueOf(x))
		return nil
	}
	if n.k == jNull {
		v.SetZero()
		return nil
	}
	switch t.Kind() {
	case reflect.Bool:
		if n.k != jTrue && n.k != jFalse {
			return terr(n, t)
		}
		v.SetBool(n.k == jTrue)
	case reflect.String:
		if n.k != jString {
			return terr(n, t)
		}
		v.SetString(n.s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.k != jNumber {
			return terr(n, t)
		}
		bits := 64
		switch t.Kind() {
		case reflect.Int8:
			bits = 8
		case reflect.Int16:
			bits = 16
		case reflect.Int32:
			bits = 32
		}
		x, err := strconv.ParseInt(n.s, 10, bits)
		if err != nil {
			return terr(n, t)
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.k != jNumber {
			return terr(n, t)
		}
		bits := 64
		switch t.Kind() {
		case reflect.Uint8:
			bits = 8
		case reflect.Uint16:
			bits = 16
		case reflect.Uint32:
			bits = 32
		}
		x, err := strconv.ParseUint(n.s, 10, bits)
		if err != nil {
			return terr(n, t)
		}
		v.SetUint(x)
	case reflect.Float64, reflect.Float32:
		if n.k != jNumber {
			return terr(n, t)
		}
		x, err := strconv.ParseFloat(n.s, 64)
		if err != nil {
			return terr(n, t)
		}
		v.SetFloat(x)
	case reflect.Slice:
		if t.String() == "jsontext.Value" || t.String() == "json.RawMessage" {
			v.Set(reflect.ValueOf([]byte(n.raw)).Convert(t))
			return nil
		}
		if n.k != jArray {
			return terr(n, t)
		}
		s := reflect.MakeSlice(t, len(n.kids), len(n.kids))
		v.Set(s)
		for i, e := range n.kids {
			if err := decode(e, v.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		if n.k != jObject {
			return terr(n, t)
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		for i, k := range n.key {
			e := reflect.New(t.Elem()).Elem()
			if err := decode(n.kids[i], e); err != nil {
				return err
			}
			v.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), e)
		}
	case reflect.Struct:
		if n.k != jObject {
			return terr(n, t)
		}
		for i, k := range n.key {
			if err := member(n.kids[i], k, v); err != nil {
				return err
			}
		}
	default:
		return terr(n, t)
	}
	return nil
}

// member decodes the member k of an object into the field of that name, which may
// be one of an embedded struct.
func member(n *jnode, k string, v reflect.Value) error {
	t := v.Type()
	for f := 0; f < t.NumField(); f++ {
		sf := t.Field(f)
		if _, tagged := tagLookup(string(sf.Tag), "json"); sf.Anonymous && !tagged && sf.Type.Kind() == reflect.Struct {
			if err := member(n, k, v.Field(f)); err != nil {
				return err
			}
			continue
		}
		name, _, _, skip := tag(sf)
		if skip || name != k {
			continue
		}
		if err := decode(n, v.Field(f)); err != nil {
			return err
		}
	}
	return nil
}

func JSONUnmarshal(in []byte, out any, opts ...any) error {
	n, err := jparse(string(in))
	if err != nil {
		return err
	}
	v := reflect.ValueOf(out)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return &jsonError{"json: cannot unmarshal into Go non-pointer"}
	}
	return decode(n, v.Elem())
}

// lossy: invalid UTF-8 is marshalled as U+FFFD (jsontext.AllowInvalidUTF8)
var lossy bool

func jquote(s string) string {
	out := "\""
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			switch {
			case c == '"' || c == '\\':
				out += "\\" + s[i:i+1]
			case c == '\b':
				out += "\\b"
			case c == '\f':
				out += "\\f"
			case c == '\n':
				out += "\\n"
			case c == '\r':
				out += "\\r"
			case c == '\t':
				out += "\\t"
			case c < 0x20:
				out += "\\u00" + "0123456789abcdef"[c>>4:c>>4+1] + "0123456789abcdef"[c&15:c&15+1]
			default:
				out += s[i : i+1]
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			out += "\ufffd"
		} else {
			out += s[i : i+n]
		}
		i += n
	}
	return out + "\""
}

func validUTF8(s string) bool {
	for i := 0; i < len(s); {
		if s[i] < 0x80 {
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			return false
		}
		i += n
	}
	return true
}

func ftoa(f float64) string {
	format := byte('f')
	a := f
	if a < 0 {
		a = -a
	}
	if a != 0 && (a < 1e-6 || a >= 1e21) {
		format = 'e'
	}
	b := strconv.FormatFloat(f, format, -1, 64)
	if format == 'e' {
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b = b[:n-2] + b[n-1:]
		}
	}
	return b
}

func encode(v reflect.Value) (string, error) {
	if !v.IsValid() {
		return "null", nil
	}
	t := v.Type()
	if v.Kind() != reflect.Interface && !(v.Kind() == reflect.Pointer && v.IsNil()) {
		if m, ok := v.Interface().(marshaler); ok {
			b, err := m.MarshalJSON()
			return string(b), err
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return "true", nil
		}
		return "false", nil
	case reflect.String:
		s := v.String()
		if !lossy && !validUTF8(s) {
			return "", &jsonError{"json: cannot marshal from Go string: jsontext: invalid UTF-8"}
		}
		return jquote(s), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10), nil
	case reflect.Float64, reflect.Float32:
		return ftoa(v.Float()), nil
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "null", nil
		}
		return encode(v.Elem())
	case reflect.Slice, reflect.Array:
		out := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out += ","
			}
			e, err := encode(v.Index(i))
			if err != nil {
				return "", err
			}
			out += e
		}
		return out + "]", nil
	case reflect.Map:
		out := "{"
		for i, k := range v.MapKeys() {
			if i > 0 {
				out += ","
			}
			e, err := encode(v.MapIndex(k))
			if err != nil {
				return "", err
			}
			out += jquote(k.String()) + ":" + e
		}
		return out + "}", nil
	case reflect.Struct:
		out := "{"
		first := true
		for f := 0; f < t.NumField(); f++ {
			name, oe, oz, skip := tag(t.Field(f))
			if skip {
				continue
			}
			fv := v.Field(f)
			if oz && fv.IsZero() {
				continue
			}
			e, err := encode(fv)
			if err != nil {
				return "", err
			}
			if oe && (e == "null" || e == "\"\"" || e == "[]" || e == "{}") {
				continue
			}
			if !first {
				out += ","
			}
			first = false
			out += jquote(name) + ":" + e
		}
		return out + "}", nil
	}
	return "", &jsonError{"json: cannot marshal Go " + t.String()}
}

func JSONMarshal(in any, opts ...any) ([]byte, error) {
	lossy = false
	for _, o := range opts {
		// jsonflags: the lowest bit is the value, the third AllowInvalidUTF8
		if vrt.TypeName(o) == "jsonflags.Bools" && vrt.AsUint(o)&4 != 0 {
			lossy = vrt.AsUint(o)&1 != 0
		}
	}
	s, err := encode(reflect.ValueOf(in))
	if err != nil {
		return nil, err
	}
	return []byte(s), nil
}
