// Package vmodel holds Go models of standard-library functions that the
// symbolic executor cannot run from source (assembly, reflection, runtime
// internals). They are interpreted like ordinary code.
package vmodel

import (
	"io"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// ---- fmt ----

type stringer interface{ String() string }

func itoa(u uint64, base uint64) string {
	if u == 0 {
		return "0"
	}
	var b [70]byte
	i := len(b)
	for u > 0 {
		i--
		b[i] = "0123456789abcdef"[u%base]
		u /= base
	}
	return string(b[i:])
}

func intStr(v any, base uint64) string {
	if vrt.Signed(v) {
		n := vrt.AsInt(v)
		if n < 0 {
			return "-" + itoa(uint64(-n), base)
		}
		return itoa(uint64(n), base)
	}
	return itoa(vrt.AsUint(v), base)
}

func quote(s string) string {
	out := "\""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out += "\\" + s[i:i+1]
		case c == '\n':
			out += "\\n"
		case c == '\t':
			out += "\\t"
		case c == '\r':
			out += "\\r"
		case c < 32 || c == 127:
			out += "\\x" + "0123456789abcdef"[c>>4:c>>4+1] + "0123456789abcdef"[c&15:c&15+1]
		default:
			out += s[i : i+1]
		}
	}
	return out + "\""
}

func val(v any, verb byte, plus, sharp bool) string {
	if v == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return vrt.TypeName(v)
	}
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q') {
		var s string
		ok := false
		if e, is := v.(error); is {
			s, ok = e.Error(), true
		} else if e, is := v.(stringer); is {
			s, ok = e.String(), true
		}
		if ok {
			if verb == 'q' {
				return quote(s)
			}
			return s
		}
	}
	switch vrt.Kind(v) {
	case 0: // bool
		if vrt.AsBool(v) {
			return "true"
		}
		return "false"
	case 1:
		switch verb {
		case 'x':
			return intStr(v, 16)
		case 'o':
			return intStr(v, 8)
		case 'b':
			return intStr(v, 2)
		case 'c':
			return string(rune(vrt.AsInt(v)))
		case 'q':
			return "'" + string(rune(vrt.AsInt(v))) + "'"
		case 's':
			return "%!s(" + vrt.TypeName(v) + "=" + intStr(v, 10) + ")"
		}
		return intStr(v, 10)
	case 4:
		s := vrt.AsString(v)
		if verb == 'q' || verb == 'v' && sharp {
			return quote(s)
		}
		if verb == 'x' {
			out := ""
			for i := 0; i < len(s); i++ {
				out += "0123456789abcdef"[s[i]>>4:s[i]>>4+1] + "0123456789abcdef"[s[i]&15:s[i]&15+1]
			}
			return out
		}
		if verb == 'd' {
			return "%!d(" + vrt.TypeName(v) + "=" + s + ")"
		}
		return s
	case 7, 13: // slice, array
		if b, ok := v.([]byte); ok && verb == 's' {
			return string(b)
		}
		out := "["
		for i, e := range vrt.AggElems(v) {
			if i > 0 {
				out += " "
			}
			out += val(e, verb, plus, sharp)
		}
		return out + "]"
	case 12:
		out := "{"
		for i, e := range vrt.AggElems(v) {
			if i > 0 {
				out += " "
			}
			out += val(e, verb, plus, sharp)
		}
		return out + "}"
	case 2:
		return vrt.FmtNative("%"+string(rune(verb)), v)
	}
	return vrt.FmtNative("%v", v)
}

func pad(s string, width int, minus, zero bool) string {
	n := 0
	for range s {
		n++
	}
	for n < width {
		if minus {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
		n++
	}
	return s
}

func Sprintf(format string, a ...any) string {
	out := ""
	ai := 0
	i := 0
	for i < len(format) {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		if j > i {
			out += format[i:j]
		}
		i = j
		if i >= len(format) {
			break
		}
		i++
		var plus, sharp, minus, zero, space bool
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '-':
				minus = true
			case '0':
				zero = true
			case ' ':
				space = true
			default:
				break flags
			}
			i++
		}
		_ = space
		width, prec := 0, -1
		if i < len(format) && format[i] == '*' {
			if ai < len(a) {
				width = int(vrt.AsInt(a[ai]))
				if width < 0 {
					minus = true
					width = -width
				}
				ai++
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if ai >= len(a) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		v := a[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		var s string
		if v != nil && vrt.Kind(v) == 2 {
			f := "%"
			if prec >= 0 {
				f += "." + itoa(uint64(prec), 10)
			}
			s = vrt.FmtNative(f+string(rune(verb)), v)
		} else {
			s = val(v, verb, plus, sharp)
			if prec >= 0 && (verb == 's' || verb == 'v' || verb == 'q') {
				n := 0
				for k := range s {
					if n == prec {
						s = s[:k]
						break
					}
					n++
				}
			}
		}
		out += pad(s, width, minus, zero)
	}
	if ai < len(a) {
		out += "%!(EXTRA)"
	}
	return out
}

func Sprint(a ...any) string {
	out := ""
	for i, v := range a {
		if i > 0 && (v == nil || vrt.Kind(v) != 4) && (a[i-1] == nil || vrt.Kind(a[i-1]) != 4) {
			out += " "
		}
		out += val(v, 'v', false, false)
	}
	return out
}

func Sprintln(a ...any) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += val(v, 'v', false, false)
	}
	return out + "\n"
}

type wrapErr struct {
	msg  string
	errs []error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error {
	if len(e.errs) > 0 {
		return e.errs[0]
	}
	return nil
}

func Errorf(format string, a ...any) error {
	e := &wrapErr{msg: Sprintf(format, a...)}
	for _, v := range a {
		if x, ok := v.(error); ok {
			e.errs = append(e.errs, x)
		}
	}
	return e
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func Printf(format string, a ...any) (int, error) { return 0, nil }
func Printf0(a ...any) (int, error)               { return 0, nil }
func Appendf(b []byte, format string, a ...any) []byte {
	return append(b, Sprintf(format, a...)...)
}
func Nop0(a ...any)                { _ = a }
func Nop1(format string, a ...any) { _ = a }

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- sort ----

func SortSlice(x any, less func(i, j int) bool) {
	n := vrt.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vrt.SliceSwap(x, j, j-1)
		}
	}
}

// ---- sync.Map, Pool, atomic.Value ----

type smap struct {
	mu sync.Mutex
	m  map[any]any
}

func sm(p *sync.Map) *smap {
	c := vrt.Side(unsafe.Pointer(p))
	if *c == nil {
		*c = &smap{m: map[any]any{}}
	}
	return (*c).(*smap)
}

func SyncMapLoad(p *sync.Map, k any) (any, bool) {
	s := sm(p)
	s.mu.Lock()
	v, ok := s.m[k]
	s.mu.Unlock()
	return v, ok
}
func SyncMapStore(p *sync.Map, k, v any) {
	s := sm(p)
	s.mu.Lock()
	s.m[k] = v
	s.mu.Unlock()
}
func SyncMapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	s := sm(p)
	s.mu.Lock()
	o, ok := s.m[k]
	if !ok {
		s.m[k] = v
		o = v
	}
	s.mu.Unlock()
	return o, ok
}
func SyncMapSwap(p *sync.Map, k, v any) (any, bool) {
	s := sm(p)
	s.mu.Lock()
	o, ok := s.m[k]
	s.m[k] = v
	s.mu.Unlock()
	return o, ok
}
func SyncMapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	s := sm(p)
	s.mu.Lock()
	o, ok := s.m[k]
	delete(s.m, k)
	s.mu.Unlock()
	return o, ok
}
func SyncMapDelete(p *sync.Map, k any) { SyncMapLoadAndDelete(p, k) }
func SyncMapClear(p *sync.Map) {
	s := sm(p)
	s.mu.Lock()
	clear(s.m)
	s.mu.Unlock()
}
func SyncMapCAS(p *sync.Map, k, o, n any) bool {
	s := sm(p)
	s.mu.Lock()
	v, ok := s.m[k]
	ok = ok && v == o
	if ok {
		s.m[k] = n
	}
	s.mu.Unlock()
	return ok
}
func SyncMapCAD(p *sync.Map, k, o any) bool {
	s := sm(p)
	s.mu.Lock()
	v, ok := s.m[k]
	ok = ok && v == o
	if ok {
		delete(s.m, k)
	}
	s.mu.Unlock()
	return ok
}
func SyncMapRange(p *sync.Map, f func(k, v any) bool) {
	s := sm(p)
	s.mu.Lock()
	var ks []any
	for k := range s.m {
		ks = append(ks, k)
	}
	s.mu.Unlock()
	for _, k := range ks {
		s.mu.Lock()
		v, ok := s.m[k]
		s.mu.Unlock()
		if ok && !f(k, v) {
			return
		}
	}
}

func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func PoolPut(p *sync.Pool, v any) {}

type aval struct {
	mu sync.Mutex
	v  any
}

func av(p *atomic.Value) *aval {
	c := vrt.Side(unsafe.Pointer(p))
	if *c == nil {
		*c = &aval{}
	}
	return (*c).(*aval)
}
func AtomicValueLoad(p *atomic.Value) any {
	s := av(p)
	s.mu.Lock()
	v := s.v
	s.mu.Unlock()
	return v
}
func AtomicValueStore(p *atomic.Value, v any) {
	s := av(p)
	s.mu.Lock()
	s.v = v
	s.mu.Unlock()
}
func AtomicValueSwap(p *atomic.Value, v any) any {
	s := av(p)
	s.mu.Lock()
	o := s.v
	s.v = v
	s.mu.Unlock()
	return o
}
func AtomicValueCAS(p *atomic.Value, o, n any) bool {
	s := av(p)
	s.mu.Lock()
	ok := s.v == o
	if ok {
		s.v = n
	}
	s.mu.Unlock()
	return ok
}

// ---- internal/bytealg ----

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByte(s []byte, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }
func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}
func BytesEqual(a, b []byte) bool { return string(a) == string(b) }
func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}
func Index(s, sub []byte) int { return IndexString(string(s), string(sub)) }

func MaphashString(seed [1]uint64, s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
