// Package vrt is the harness runtime. The symbolic executor intercepts every
// function here; compiled natively, the functions replay recorded inputs.
package vrt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"unsafe"
)

type state struct {
	In     map[string]string
	names  map[string]int
	Obs    []string
	Reachd []string
	Fail   []string
	Known  map[string]bool
}

var st = &state{In: map[string]string{}, names: map[string]int{}}

type stopped struct{ why string }

// Result of a native replay.
type Result struct {
	Obs     []string `json:"obs"`
	Reach   []string `json:"reach"`
	Fail    []string `json:"fail"`
	Panic   string   `json:"panic"`
	Stopped string   `json:"stopped"`
}

// Replay runs f natively on recorded inputs.
func Replay(in map[string]string, known map[string]bool, f func()) (r Result) {
	st = &state{In: in, names: map[string]int{}, Known: known}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stopped); ok {
				r.Stopped = s.why
			} else {
				r.Panic = fmt.Sprint(e)
				if os.Getenv("VRT_STACK") != "" {
					buf := make([]byte, 1<<16)
					r.Panic += "\n" + string(buf[:runtime.Stack(buf, false)])
				}
			}
		}
		r.Obs, r.Reach, r.Fail = st.Obs, st.Reachd, st.Fail
	}()
	f()
	return
}

// Main replays a batch: VRT_BATCH names a JSON file [{harness, inputs}], and
// the results go to VRT_OUT.
func Main(hs map[string]func()) {
	type item struct {
		Harness string            `json:"harness"`
		Inputs  map[string]string `json:"inputs"`
		Known   map[string]bool   `json:"known"`
	}
	b, err := os.ReadFile(os.Getenv("VRT_BATCH"))
	if err != nil {
		panic(err)
	}
	var its []item
	if err := json.Unmarshal(b, &its); err != nil {
		panic(err)
	}
	var out []Result
	for _, it := range its {
		f := hs[it.Harness]
		if f == nil {
			out = append(out, Result{Stopped: "no such harness"})
			continue
		}
		out = append(out, Replay(it.Inputs, it.Known, f))
	}
	o, _ := json.Marshal(out)
	if err := os.WriteFile(os.Getenv("VRT_OUT"), o, 0o644); err != nil {
		panic(err)
	}
}

func uname(n string) string {
	k := st.names[n]
	st.names[n] = k + 1
	if k > 0 {
		return n + "#" + strconv.Itoa(k)
	}
	return n
}

func num(name string) uint64 {
	n := uname(name)
	s, ok := st.In[n]
	if !ok {
		return 0
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		return v
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("bad input " + n + "=" + s)
	}
	return uint64(v)
}

func str(name string) string {
	s := st.In[uname(name)]
	if len(s) > 0 && s[0] == 'x' {
		b, _ := hex.DecodeString(s[1:])
		return string(b)
	}
	return ""
}

// ---- symbolic inputs ----

func Bool(name string) bool  { return num(name) != 0 }
func Byte(name string) byte  { return byte(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U32(name string) uint32 { return uint32(num(name)) }
func U64(name string) uint64 { return num(name) }
func I32(name string) int32  { return int32(num(name)) }
func I64(name string) int64  { return int64(num(name)) }

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(num(name)) }

// Choice is any integer in [0, n), with the path split by value.
func Choice(name string, n int) int { return int(num(name)) }

// Str is any byte string of length 0..max; StrN of length exactly n.
func Str(name string, max int) string { num(name + ".len"); return str(name) }
func StrN(name string, n int) string {
	s := str(name)
	for len(s) < n {
		s += "\x00"
	}
	return s
}

func Assume(c bool) {
	if !c {
		panic(stopped{"assume"})
	}
}
func Stop()            { panic(stopped{"stop"}) }
func Bound(msg string) { panic(stopped{"bound " + msg}) }
func Assert(c bool, msg string) {
	if !c {
		st.Fail = append(st.Fail, msg)
		panic(stopped{"violation"})
	}
}
func Fail(msg string)    { Assert(false, msg) }
func Reach(label string) { st.Reachd = append(st.Reachd, label) }

func Observe(label string, v any) {
	t := "nil"
	switch x := v.(type) {
	case nil:
	case string:
		t = fmt.Sprintf("%q", []byte(x))
	case bool:
		t = fmt.Sprint(x)
	default:
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.String:
			t = fmt.Sprintf("%q", []byte(rv.String()))
		case reflect.Slice:
			t = "["
			for i := 0; i < rv.Len(); i++ {
				if i > 0 {
					t += " "
				}
				e := rv.Index(i)
				switch e.Kind() {
				case reflect.String:
					t += fmt.Sprintf("%q", []byte(e.String()))
				case reflect.Struct:
					t += "?"
				default:
					t += fmt.Sprint(e.Interface())
				}
			}
			t += "]"
		case reflect.Struct, reflect.Ptr, reflect.Map:
			t = "?"
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			t = strconv.FormatInt(rv.Int(), 10)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			t = strconv.FormatUint(rv.Uint(), 10)
		default:
			t = fmt.Sprint(v)
		}
	}
	st.Obs = append(st.Obs, label+"="+t)
}

func Conc(x int) int          { return x }
func ConcStr(s string) string { return s }
func Tier() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1
	}
	return 0
}
func Symbolic() bool             { return false }
func Concurrent(preemptions int) {}
func Race(on bool)               {}
func MapOrder(n int)             {}
func Yield()                     { runtime.Gosched() }
func Gid() int                   { return 0 }
func Log(label string, v any)    {}

// Ite, And, Or build terms without splitting the path.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Known reports whether id is a listed known finding and cond holds; the
// harness then leaves the path.
func Known(id string, cond bool) bool { return st.Known[id] && cond }

// ---- used by models only ----

func side(p unsafe.Pointer) *any { panic("vrt.side") }

// Side is the hidden state cell attached to a memory location.
func Side(p unsafe.Pointer) *any { return side(p) }

func SliceLen(x any) int               { return reflect.ValueOf(x).Len() }
func SliceSwap(x any, i, j int)        { reflect.Swapper(x)(i, j) }
func TypeName(v any) string            { return fmt.Sprintf("%T", v) }
func Kind(v any) int                   { return 0 }
func AsInt(v any) int64                { return 0 }
func AsUint(v any) uint64              { return 0 }
func Signed(v any) bool                { return true }
func AsString(v any) string            { return "" }
func AsBool(v any) bool                { return false }
func FmtNative(f string, v any) string { return fmt.Sprintf(f, v) }
func AggElems(v any) []any             { return nil }

// Checkpoint marks the end of the choice-free prefix of a harness with ckpt=1.
func Checkpoint() {}
