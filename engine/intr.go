package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"time"
	"unicode/utf8"
)

const (
	stDone   = 0
	stBlock  = 1
	stPushed = 2
	stYield  = 3
	stModel  = 4 // fall back to the model or the real body
)

type intrinsic func(g *Gor, fn *Func, a []Value) (Value, int)

var intrinsics = map[string]intrinsic{}

const vrtPath = modPath + "/internal/vrt."
const vmPath = modPath + "/internal/vmodel"

// std functions replaced by Go models in package vmodel
var modelNames = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
	"fmt.Printf": "Printf", "fmt.Print": "Printf0", "fmt.Println": "Printf0", "fmt.Appendf": "Appendf",
	"errors.Is":  "ErrorsIs",
	"sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice",
	"(*sync.Map).Load": "SyncMapLoad", "(*sync.Map).Store": "SyncMapStore", "(*sync.Map).LoadOrStore": "SyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete": "SyncMapLoadAndDelete", "(*sync.Map).Delete": "SyncMapDelete", "(*sync.Map).Range": "SyncMapRange",
	"(*sync.Map).Swap": "SyncMapSwap", "(*sync.Map).Clear": "SyncMapClear", "(*sync.Map).CompareAndSwap": "SyncMapCAS", "(*sync.Map).CompareAndDelete": "SyncMapCAD",
	"(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut",
	"(*sync/atomic.Value).Load": "AtomicValueLoad", "(*sync/atomic.Value).Store": "AtomicValueStore",
	"(*sync/atomic.Value).CompareAndSwap": "AtomicValueCAS", "(*sync/atomic.Value).Swap": "AtomicValueSwap",
	"internal/bytealg.IndexByteString": "IndexByteString", "internal/bytealg.IndexByte": "IndexByte",
	"internal/bytealg.CountString": "CountString", "internal/bytealg.Count": "Count",
	"internal/bytealg.Compare": "Compare", "internal/bytealg.CompareString": "CompareString", "internal/bytealg.Equal": "BytesEqual", "bytes.Equal": "BytesEqual",
	"internal/bytealg.IndexString": "IndexString", "internal/bytealg.Index": "Index", "strings.Index": "IndexString",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString", "internal/bytealg.LastIndexByte": "LastIndexByte",
	"internal/bytealg.IndexRabinKarp": "", "bytes.Index": "Index",
	"log.Printf": "Nop1", "log.Print": "Nop0", "log.Println": "Nop0",
	"internal/stringslite.Index": "IndexString", "internal/stringslite.IndexByte": "IndexByteString",
	"hash/maphash.String":                          "MaphashString",
	"github.com/go-json-experiment/json.Unmarshal": "JSONUnmarshal", "github.com/go-json-experiment/json.Marshal": "JSONMarshal",
}

func ifaceArg(v Value) (*Iface, bool) {
	i, ok := v.P.(*Iface)
	return i, ok
}

func (w *W) cs(v Value) string {
	s, ok := conc(v)
	if !ok {
		w.unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

func (w *W) uname(n string) string {
	k := w.names[n]
	w.names[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (w *W) newInput(name string, width uint8, signed bool) Value {
	n := w.uname(name)
	t := w.ts.Var(n, width)
	w.inputs = append(w.inputs, inputVar{name: n, t: t, v: Value{P: t}, w: width, sgn: signed})
	return Value{P: t}
}

// smallInput is an integer in [0, hi] held in one byte.
func (w *W) smallInput(name string, hi uint64) (Value, *Term) {
	un := w.uname(name)
	t := w.ts.Var(un, 8)
	z := Value{P: w.ts.Resize(t, 64, false)}
	w.inputs = append(w.inputs, inputVar{name: un, t: t, v: z, w: 64})
	w.assume(w.ts.Ule(t, w.ts.Const(8, hi)))
	return z, t
}

func (w *W) strInput(name string, n int) Value {
	un := w.uname(name)
	bs := make([]Value, n)
	for i := range bs {
		bs[i] = Value{P: w.ts.Var(fmt.Sprintf("%s[%d]", un, i), 8)}
	}
	w.inputs = append(w.inputs, inputVar{name: un, isS: true, sym: bs})
	if n == 0 {
		return Value{}
	}
	return Value{P: &Str{sym: bs}, N: uint64(n)}
}

// text renders an observed value under the current model.
func (w *W) text(v Value, t *RType) string {
	gen := w.ts.NewGen()
	ev := func(v Value) uint64 {
		if tm, ok := v.P.(*Term); ok {
			return w.ts.eval(tm, w.model, gen)
		}
		return v.N
	}
	switch t.kind {
	case KBool:
		return fmt.Sprint(ev(v) != 0)
	case KInt:
		if t.signed {
			return fmt.Sprint(sext64(ev(v), t.w))
		}
		return fmt.Sprint(ev(v))
	case KString:
		bs := strBytes(v)
		b := make([]byte, len(bs))
		for i, x := range bs {
			b[i] = byte(ev(x))
		}
		return fmt.Sprintf("%q", b)
	case KFloat:
		return fmt.Sprint(fval(v, t))
	case KSlice:
		if v.P == nil {
			return "[]"
		}
		s := v.P.(*Slice)
		var sb strings.Builder
		sb.WriteString("[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			if t.elem.agg() {
				sb.WriteString("?")
				continue
			}
			sb.WriteString(w.text(s.obj.slots[s.off+i*t.elem.slots], t.elem))
		}
		sb.WriteString("]")
		return sb.String()
	case KIface:
		if v.P == nil {
			return "<nil>"
		}
		i := v.P.(*Iface)
		return w.text(i.v, i.t)
	}
	return "?"
}

func (w *W) loc(p Value) (*Obj, int) {
	p = w.concPtr(p)
	o, ok := p.P.(*Obj)
	if !ok {
		w.nilDeref()
	}
	return o, int(p.N)
}

// syncVC is the per-location synchronisation clock.
func (w *W) syncVC(o *Obj, off int) *vclock {
	if o.side == nil {
		o.side = map[int]any{}
	}
	k := -1 - off
	v, ok := o.side[k].(*vclock)
	if ok && o.base {
		old := *v
		w.journalFn(func() { *v = old })
	}
	if !ok {
		v = new(vclock)
		o.side[k] = v
		if o.base {
			w.journalFn(func() { delete(o.side, k) })
		}
	}
	return v
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func ret(v Value) (Value, int) { return v, stDone }

func init() {
	// ---- vrt ----
	v := func(n string, f intrinsic) { reg(vrtPath+n, f) }
	v("Bool", func(g *Gor, fn *Func, a []Value) (Value, int) {
		return ret(g.w.newInput(g.w.cs(a[0]), 0, false))
	})
	for n, wd := range map[string]uint8{"Byte": 8, "U16": 16, "U32": 32, "U64": 64} {
		v(n, func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.newInput(g.w.cs(a[0]), wd, false)) })
	}
	for n, wd := range map[string]uint8{"I32": 32, "I64": 64} {
		v(n, func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.newInput(g.w.cs(a[0]), wd, true)) })
	}
	v("Int", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		lo, hi := w.term(a[1], 64), w.term(a[2], 64)
		if lo.op == OpConst && hi.op == OpConst && hi.k < 256 && lo.k <= hi.k {
			x, t := w.smallInput(w.cs(a[0]), hi.k)
			if lo.k > 0 {
				w.assume(w.ts.Ule(w.ts.Const(8, lo.k), t))
			}
			return ret(x)
		}
		x := w.newInput(w.cs(a[0]), 64, true)
		t := x.P.(*Term)
		w.assume(w.ts.And(w.ts.Sle(lo, t), w.ts.Sle(t, hi)))
		return ret(x)
	})
	v("Choice", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		n := int(w.concInt(a[1], nil))
		if n <= 0 {
			panic(pathEnd{"assume", ""})
		}
		if n <= 256 {
			_, t := w.smallInput(w.cs(a[0]), uint64(n-1))
			return ret(Value{N: w.concretize(t)})
		}
		x := w.newInput(w.cs(a[0]), 64, true)
		t := x.P.(*Term)
		w.assume(w.ts.Ult(t, w.ts.Const(64, uint64(n))))
		return ret(Value{N: w.concretize(t)})
	})
	v("Str", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		mx := int(w.concInt(a[1], nil))
		name := w.cs(a[0])
		_, t := w.smallInput(name+".len", uint64(mx))
		n := int(w.concretize(t))
		return ret(w.strInput(name, n))
	})
	v("StrN", func(g *Gor, fn *Func, a []Value) (Value, int) {
		return ret(g.w.strInput(g.w.cs(a[0]), int(g.w.concInt(a[1], nil))))
	})
	v("Assume", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.assume(g.w.term(a[0], 0))
		return ret(Value{})
	})
	v("Assert", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.assertT(g.w.term(a[0], 0), g.w.cs(a[1]), g)
		return ret(Value{})
	})
	v("Fail", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.ex.addAssert()
		g.w.violation("assert", g.w.cs(a[0]), g.stack())
		return ret(Value{})
	})
	v("Stop", func(g *Gor, fn *Func, a []Value) (Value, int) { panic(pathEnd{"assume", ""}) })
	v("Bound", func(g *Gor, fn *Func, a []Value) (Value, int) { panic(pathEnd{"bound", g.w.cs(a[0])}) })
	v("Reach", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.reached[g.w.cs(a[0])] = true
		return ret(Value{})
	})
	v("Observe", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		t := "nil"
		if i, ok := ifaceArg(a[1]); ok {
			// rendered at path end through a closure-free snapshot
			w.obsLater = append(w.obsLater, obsV{w.cs(a[0]), i.v, i.t})
			return ret(Value{})
		}
		w.obs = append(w.obs, obsEnt{w.cs(a[0]), t})
		return ret(Value{})
	})
	v("Conc", func(g *Gor, fn *Func, a []Value) (Value, int) {
		return ret(Value{N: uint64(g.w.concInt(a[0], rtype(types.Typ[types.Int])))})
	})
	v("ConcStr", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		bs := strBytes(a[0])
		out := make([]byte, len(bs))
		for i, b := range bs {
			if b.P != nil {
				out[i] = byte(w.concretize(b.P.(*Term)))
			} else {
				out[i] = byte(b.N)
			}
		}
		return ret(mkStr(string(out)))
	})
	v("Ite", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		return ret(tv(w.ts.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64))))
	})
	v("And", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.and(a[0], a[1])) })
	v("Or", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		return ret(w.not(w.and(w.not(a[0]), w.not(a[1]))))
	})
	v("Tier", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(Value{N: uint64(g.w.ex.tier)}) })
	v("Symbolic", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(Value{N: 1}) })
	v("Concurrent", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.concur = true
		g.w.maxPre = int(g.w.concInt(a[0], nil))
		return ret(Value{})
	})
	v("Race", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.raceOn = a[0].N != 0
		return ret(Value{})
	})
	v("MapOrder", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.mapOrder = int(g.w.concInt(a[0], nil))
		return ret(Value{})
	})
	v("Yield", func(g *Gor, fn *Func, a []Value) (Value, int) { return Value{}, stYield })
	v("Gid", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(Value{N: uint64(g.id)}) })
	v("Known", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		id := w.cs(a[0])
		if !w.ex.knownList[id] {
			return ret(Value{})
		}
		r := w.truth(a[1])
		if r {
			in, _ := w.inputMap()
			w.knownHits[id] = fmt.Sprint(in)
		}
		return ret(b2v(r))
	})
	v("Log", func(g *Gor, fn *Func, a []Value) (Value, int) {
		if g.w.debug {
			if i, ok := ifaceArg(a[1]); ok {
				fmt.Printf("LOG %s %s\n", g.w.cs(a[0]), g.w.text(i.v, i.t))
			}
		}
		return ret(Value{})
	})
	v("Checkpoint", func(g *Gor, fn *Func, a []Value) (Value, int) {
		if g.w.ex.ckpt && g.w.snap == nil {
			g.w.takeSnapshot()
		}
		return ret(Value{})
	})
	v("side", func(g *Gor, fn *Func, a []Value) (Value, int) {
		// side(p unsafe.Pointer) *any : hidden cell attached to a location
		w := g.w
		o, off := w.loc(a[0])
		if o.side == nil {
			o.side = map[int]any{}
		}
		c, ok := o.side[off].(*Obj)
		if !ok {
			c = w.newObj(1)
			o.side[off] = c
			if o.base {
				w.journalFn(func() { delete(o.side, off) })
			}
		}
		return ret(Value{P: c})
	})
	v("SliceLen", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i := a[0].P.(*Iface)
		if i.v.P == nil {
			return ret(Value{})
		}
		return ret(Value{N: uint64(i.v.P.(*Slice).len)})
	})
	v("SliceSwap", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i := a[0].P.(*Iface)
		s := i.v.P.(*Slice)
		n := i.t.elem.slots
		x, y := s.off+int(a[1].N)*n, s.off+int(a[2].N)*n
		for k := 0; k < n; k++ {
			p, q := s.obj.slots[x+k], s.obj.slots[y+k]
			g.w.set(s.obj, x+k, q)
			g.w.set(s.obj, y+k, p)
		}
		return ret(Value{})
	})
	v("TypeName", func(g *Gor, fn *Func, a []Value) (Value, int) {
		if i, ok := ifaceArg(a[0]); ok {
			return ret(mkStr(types.TypeString(i.t.T, func(p *types.Package) string { return p.Name() })))
		}
		return ret(mkStr("<nil>"))
	})
	v("Kind", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i, ok := ifaceArg(a[0])
		if !ok {
			return ret(Value{N: 99})
		}
		k := uint64(i.t.kind)
		return ret(Value{N: k})
	})
	v("AsInt", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i := a[0].P.(*Iface)
		w := g.w
		if isPtrish(i.v) {
			return ret(Value{N: 1})
		}
		return ret(w.convert(i.v, i.t, rtype(types.Typ[types.Int64])))
	})
	v("AsUint", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i := a[0].P.(*Iface)
		if isPtrish(i.v) {
			return ret(Value{N: 1})
		}
		return ret(g.w.convert(i.v, i.t, rtype(types.Typ[types.Uint64])))
	})
	v("Signed", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(b2v(a[0].P.(*Iface).t.signed)) })
	v("AsString", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(a[0].P.(*Iface).v) })
	v("AsBool", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(a[0].P.(*Iface).v) })
	v("FmtNative", func(g *Gor, fn *Func, a []Value) (Value, int) {
		// rendering of values the model does not know: identity only
		if i, ok := ifaceArg(a[1]); ok {
			switch i.t.kind {
			case KFloat:
				return ret(mkStr(fmt.Sprintf(g.w.cs(a[0]), fval(g.w.concF(i.v), i.t))))
			case KSlice, KStruct, KArray, KMap, KPtr:
				return ret(mkStr("<" + i.t.String() + ">"))
			}
			return ret(mkStr("<" + i.t.String() + ">"))
		}
		return ret(mkStr("<nil>"))
	})
	v("AggElems", func(g *Gor, fn *Func, a []Value) (Value, int) {
		// elements of a slice/array/struct as []any
		w := g.w
		i := a[0].P.(*Iface)
		var out []Value
		add := func(vs []Value, t *RType) {
			var x Value
			if t.agg() {
				x = Value{P: &Agg{v: append([]Value(nil), vs...)}}
			} else {
				x = vs[0]
			}
			if t.kind == KIface {
				out = append(out, x)
			} else {
				out = append(out, Value{P: &Iface{t: t, v: x}})
			}
		}
		switch i.t.kind {
		case KSlice:
			if i.v.P != nil {
				s := i.v.P.(*Slice)
				n := i.t.elem.slots
				for k := 0; k < s.len; k++ {
					add(s.obj.slots[s.off+k*n:s.off+(k+1)*n], i.t.elem)
				}
			}
		case KStruct:
			vs := i.v.P.(*Agg).v
			for _, f := range i.t.fields {
				add(vs[f.off:f.off+f.t.slots], f.t)
			}
		case KArray:
			vs := i.v.P.(*Agg).v
			n := i.t.elem.slots
			for k := 0; k < i.t.n; k++ {
				add(vs[k*n:(k+1)*n], i.t.elem)
			}
		case KPtr:
			if o, ok := i.v.P.(*Obj); ok {
				et := rtype(i.t.T.Underlying().(*types.Pointer).Elem())
				add(o.slots[i.v.N:int(i.v.N)+et.slots], et)
			}
		}
		return ret(Value{P: &Slice{obj: &Obj{slots: out, id: w.nextObj}, len: len(out), cap: len(out)}})
	})

	// ---- runtime ----
	zero := func(names ...string) {
		for _, n := range names {
			reg(n, func(g *Gor, fn *Func, a []Value) (Value, int) {
				if fn.res != nil {
					return ret(zeroVal(fn.res))
				}
				return ret(Value{})
			})
		}
	}
	zero("runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Callers", "runtime.Caller", "runtime/debug.SetGCPercent",
		"runtime/debug.FreeOSMemory", "runtime/debug.SetMemoryLimit", "runtime.ReadMemStats", "runtime.Stack", "runtime.AddCleanup",
		"runtime.FuncForPC", "runtime/debug.PrintStack", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime.GOROOT",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault",
		"(*internal/godebug.Setting).Name", "internal/godebug.registerMetric", "internal/synctest.IsInBubble", "internal/synctest.IsAssociated",
		"internal/synctest.Associate", "internal/synctest.Disassociate",
		"os.Getenv", "os.LookupEnv", "log.SetFlags", "log.SetOutput", "runtime/debug.Stack", "runtime/debug.ReadBuildInfo",
		"runtime.NumGoroutine", "internal/bytealg.init")
	reg("runtime.GOMAXPROCS", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(Value{N: 2}) })
	reg("runtime.NumCPU", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(Value{N: 2}) })
	reg("runtime.Gosched", func(g *Gor, fn *Func, a []Value) (Value, int) { return Value{}, stYield })
	reg("runtime.Goexit", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.top.panicking = &panicRec{goexit: true}
		return Value{}, stPushed
	})
	ident := func(names ...string) {
		for _, n := range names {
			reg(n, func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(a[0]) })
		}
	}
	ident("internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone", "bytes.Clone!", "internal/abi.EscapeNonString")
	reg("time.Now", func(g *Gor, fn *Func, a []Value) (Value, int) {
		g.w.clock++
		v := zeroVal(fn.res)
		v.P.(*Agg).v[0].N = uint64(g.w.clock % 1e9)
		v.P.(*Agg).v[1].N = uint64(g.w.clock / 1e9)
		return ret(v)
	})
	reg("time.Sleep", func(g *Gor, fn *Func, a []Value) (Value, int) { return Value{}, stYield })

	// ---- sync ----
	lockRel := func(g *Gor, o *Obj, off int) {
		vc := g.w.syncVC(o, off)
		*vc = g.release(*vc)
	}
	lockAcq := func(g *Gor, o *Obj, off int) { g.acquire(*g.w.syncVC(o, off)) }
	muLock := func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N != 0 {
			g.wait, g.waitOn = func() bool { return o.slots[off].N == 0 }, "mutex lock"
			return Value{}, stBlock
		}
		g.w.set(o, off, Value{N: 1})
		lockAcq(g, o, off)
		return ret(Value{})
	}
	muUnlock := func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N == 0 {
			g.w.violation("panic", "fatal error: sync: unlock of unlocked mutex", g.stack())
		}
		lockRel(g, o, off)
		g.w.set(o, off, Value{})
		return Value{}, stYield
	}
	tryLock := func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N != 0 {
			return ret(Value{})
		}
		g.w.set(o, off, Value{N: 1})
		lockAcq(g, o, off)
		return ret(Value{N: 1})
	}
	reg("(*sync.Mutex).Lock", muLock)
	reg("(*sync.Mutex).Unlock", muUnlock)
	reg("(*sync.Mutex).TryLock", tryLock)
	reg("(*internal/sync.Mutex).Lock", muLock)
	reg("(*internal/sync.Mutex).Unlock", muUnlock)
	reg("(*internal/sync.Mutex).TryLock", tryLock)
	// RWMutex: slot 0 writer flag, slot 2 number of readers
	reg("(*sync.RWMutex).Lock", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N != 0 || o.slots[off+2].N != 0 {
			g.wait, g.waitOn = func() bool { return o.slots[off].N == 0 && o.slots[off+2].N == 0 }, "rwmutex lock"
			return Value{}, stBlock
		}
		g.w.set(o, off, Value{N: 1})
		lockAcq(g, o, off)
		lockAcq(g, o, off+2)
		return ret(Value{})
	})
	reg("(*sync.RWMutex).Unlock", muUnlock)
	reg("(*sync.RWMutex).RLock", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N != 0 {
			g.wait, g.waitOn = func() bool { return o.slots[off].N == 0 }, "rwmutex rlock"
			return Value{}, stBlock
		}
		g.w.set(o, off+2, Value{N: o.slots[off+2].N + 1})
		lockAcq(g, o, off)
		return ret(Value{})
	})
	reg("(*sync.RWMutex).RUnlock", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off+2].N == 0 {
			g.w.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex", g.stack())
		}
		lockRel(g, o, off+2)
		g.w.set(o, off+2, Value{N: o.slots[off+2].N - 1})
		return Value{}, stYield
	})
	reg("(*sync.RWMutex).TryLock", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N != 0 || o.slots[off+2].N != 0 {
			return ret(Value{})
		}
		g.w.set(o, off, Value{N: 1})
		lockAcq(g, o, off)
		return ret(Value{N: 1})
	})
	reg("(*sync.WaitGroup).Add", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		d := g.w.concInt(a[1], rtype(types.Typ[types.Int]))
		n := int64(o.slots[off].N) + d
		if n < 0 {
			panic(targetPanic{g.w.ex.runtimeError("sync: negative WaitGroup counter"), false})
		}
		if d < 0 {
			lockRel(g, o, off)
		}
		g.w.set(o, off, Value{N: uint64(n)})
		return Value{}, stYield
	})
	reg("(*sync.WaitGroup).Done", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		n := int64(o.slots[off].N) - 1
		if n < 0 {
			panic(targetPanic{g.w.ex.runtimeError("sync: negative WaitGroup counter"), false})
		}
		lockRel(g, o, off)
		g.w.set(o, off, Value{N: uint64(n)})
		return Value{}, stYield
	})
	reg("(*sync.WaitGroup).Wait", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off := g.w.loc(a[0])
		if o.slots[off].N != 0 {
			g.wait, g.waitOn = func() bool { return o.slots[off].N == 0 }, "waitgroup wait"
			return Value{}, stBlock
		}
		lockAcq(g, o, off)
		return ret(Value{})
	})
	// ---- sync/atomic ----
	at := func(name string, f func(g *Gor, o *Obj, off int, a []Value, t *RType) Value) {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			var rt *RType
			switch ty {
			case "Int32":
				rt = rtype(types.Typ[types.Int32])
			case "Int64":
				rt = rtype(types.Typ[types.Int64])
			case "Uint32":
				rt = rtype(types.Typ[types.Uint32])
			case "Uint64":
				rt = rtype(types.Typ[types.Uint64])
			case "Uintptr":
				rt = rtype(types.Typ[types.Uintptr])
			default:
				rt = rtype(types.Typ[types.UnsafePointer])
			}
			h := func(g *Gor, fn *Func, a []Value) (Value, int) {
				o, off := g.w.loc(a[0])
				lockAcq(g, o, off)
				v := f(g, o, off, a, rt)
				lockRel(g, o, off)
				if g.w.concur {
					return v, stYield
				}
				return v, stDone
			}
			reg("sync/atomic."+name+ty, h)
		}
	}
	at("Load", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value { return o.slots[off] })
	at("Store", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value { g.w.set(o, off, a[1]); return Value{} })
	at("Swap", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value {
		v := o.slots[off]
		g.w.set(o, off, a[1])
		return v
	})
	at("Add", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value {
		v := g.w.binop(12 /* token.ADD */, o.slots[off], a[1], t, t)
		g.w.set(o, off, v)
		return v
	})
	at("And", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value {
		v := o.slots[off]
		g.w.set(o, off, Value{N: v.N & a[1].N})
		return v
	})
	at("Or", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value {
		v := o.slots[off]
		g.w.set(o, off, Value{N: v.N | a[1].N})
		return v
	})
	at("CompareAndSwap", func(g *Gor, o *Obj, off int, a []Value, t *RType) Value {
		c := g.w.eq(o.slots[off], a[1], t)
		if g.w.truth(c) {
			g.w.set(o, off, a[2])
			return Value{N: 1}
		}
		return Value{}
	})

	// ---- math ----
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			return ret(Value{N: math.Float64bits(f(math.Float64frombits(g.w.concF(a[0]).N)))})
		})
	}
	f2 := func(n string, f func(a, b float64) float64) {
		reg("math."+n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			return ret(Value{N: math.Float64bits(f(math.Float64frombits(g.w.concF(a[0]).N), math.Float64frombits(g.w.concF(a[1]).N)))})
		})
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Log10", math.Log10)
	f1("Exp", math.Exp)
	f1("Round", math.Round)
	f2("Pow", math.Pow)
	f2("Mod", math.Mod)
	f2("Max", math.Max)
	f2("Min", math.Min)
	reg("math.Float64bits", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.concF(a[0])) })
	reg("math.Float64frombits", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.concF(a[0])) })
	reg("math.Float32bits", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.concF(a[0])) })
	reg("math.Float32frombits", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(g.w.concF(a[0])) })

	b1 := func(n string, f func(uint64) int) {
		reg("math/bits."+n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			if a[0].P != nil {
				return Value{}, stModel
			}
			return ret(Value{N: uint64(f(a[0].N))})
		})
	}
	b1("Len64", bits.Len64)
	b1("Len32", func(x uint64) int { return bits.Len32(uint32(x)) })
	b1("Len", bits.Len64)
	b1("TrailingZeros64", bits.TrailingZeros64)
	b1("TrailingZeros32", func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	b1("LeadingZeros64", bits.LeadingZeros64)
	b1("OnesCount64", bits.OnesCount64)
	b1("OnesCount", bits.OnesCount64)

	// ---- strings, utf8: native when concrete ----
	ss := func(n string, f func(g *Gor, a []string) (Value, bool)) {
		reg(n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			var buf [4]string
			s := buf[:0]
			for _, v := range a {
				c, ok := conc(v)
				if !ok {
					return Value{}, stModel
				}
				s = append(s, c)
			}
			r, ok := f(g, s)
			if !ok {
				return Value{}, stModel
			}
			return r, stDone
		})
	}
	iv := func(i int) Value { return Value{N: uint64(int64(i))} }
	ss("strings.Index", func(g *Gor, s []string) (Value, bool) { return iv(strings.Index(s[0], s[1])), true })
	ss("internal/bytealg.IndexString", func(g *Gor, s []string) (Value, bool) { return iv(strings.Index(s[0], s[1])), true })
	ss("internal/stringslite.Index", func(g *Gor, s []string) (Value, bool) { return iv(strings.Index(s[0], s[1])), true })
	ss("strings.LastIndex", func(g *Gor, s []string) (Value, bool) { return iv(strings.LastIndex(s[0], s[1])), true })
	ss("strings.HasPrefix", func(g *Gor, s []string) (Value, bool) { return b2v(strings.HasPrefix(s[0], s[1])), true })
	ss("strings.HasSuffix", func(g *Gor, s []string) (Value, bool) { return b2v(strings.HasSuffix(s[0], s[1])), true })
	ss("strings.Contains", func(g *Gor, s []string) (Value, bool) { return b2v(strings.Contains(s[0], s[1])), true })
	ss("strings.ToLower", func(g *Gor, s []string) (Value, bool) { return mkStr(strings.ToLower(s[0])), true })
	ss("strings.ToUpper", func(g *Gor, s []string) (Value, bool) { return mkStr(strings.ToUpper(s[0])), true })
	ss("strings.EqualFold", func(g *Gor, s []string) (Value, bool) { return b2v(strings.EqualFold(s[0], s[1])), true })
	ss("strings.TrimSpace", func(g *Gor, s []string) (Value, bool) { return mkStr(strings.TrimSpace(s[0])), true })
	ss("strings.TrimPrefix", func(g *Gor, s []string) (Value, bool) { return mkStr(strings.TrimPrefix(s[0], s[1])), true })
	ss("strings.TrimSuffix", func(g *Gor, s []string) (Value, bool) { return mkStr(strings.TrimSuffix(s[0], s[1])), true })
	ss("strings.Compare", func(g *Gor, s []string) (Value, bool) { return iv(strings.Compare(s[0], s[1])), true })
	reg("internal/bytealg.MakeNoZero", func(g *Gor, fn *Func, a []Value) (Value, int) {
		n := int(g.w.concInt(a[0], nil))
		if n > 1<<22 {
			panic(pathEnd{"bound", "allocation"})
		}
		return ret(Value{P: &Slice{obj: g.w.newObj(n), len: n, cap: n}})
	})
	reg("internal/bytealg.IndexByteString", func(g *Gor, fn *Func, a []Value) (Value, int) {
		if s, ok := conc(a[0]); ok && a[1].P == nil {
			return ret(iv(strings.IndexByte(s, byte(a[1].N))))
		}
		return Value{}, stModel
	})
	reg("internal/stringslite.IndexByte", intrinsics["internal/bytealg.IndexByteString"])
	cslice := func(v Value) ([]byte, bool) {
		if v.P == nil {
			return nil, true
		}
		s := v.P.(*Slice)
		b := make([]byte, s.len)
		for i := range b {
			x := s.obj.slots[s.off+i]
			if x.P != nil {
				return nil, false
			}
			b[i] = byte(x.N)
		}
		return b, true
	}
	reg("internal/bytealg.Equal", func(g *Gor, fn *Func, a []Value) (Value, int) {
		x, ok1 := cslice(a[0])
		y, ok2 := cslice(a[1])
		if ok1 && ok2 {
			return ret(b2v(bytes.Equal(x, y)))
		}
		return Value{}, stModel
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("unicode/utf8.DecodeRuneInString", func(g *Gor, fn *Func, a []Value) (Value, int) {
		if strLen(a[0]) == 0 {
			return ret(Value{P: &Agg{v: []Value{{N: utf8.RuneError}, {}}}})
		}
		r, n := g.w.decodeRune(a[0], 0)
		return ret(Value{P: &Agg{v: []Value{r, {N: uint64(n)}}}})
	})
	reg("unicode/utf8.RuneCountInString", func(g *Gor, fn *Func, a []Value) (Value, int) {
		n := 0
		for i := 0; i < strLen(a[0]); {
			_, k := g.w.decodeRune(a[0], i)
			i += k
			n++
		}
		return ret(Value{N: uint64(n)})
	})
	_ = time.Now
}

type obsV struct {
	label string
	v     Value
	t     *RType
}
