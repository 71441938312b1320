package main

import (
	"go/types"
	"math"
	"reflect"
)

// A small reflect: reflect.Type values are objects naming an RType, and
// reflect.Value is {type object, storage location, flags}.

const (
	rvValid = 1
	rvAddr  = 2
)

func (w *W) typeObj(t *RType) *Obj {
	if w.typeObjs == nil {
		w.typeObjs = map[*RType]*Obj{}
	}
	o := w.typeObjs[t]
	if o == nil {
		w.nextObj++
		o = &Obj{slots: make([]Value, 1), id: w.nextObj, base: true, name: "type " + t.String()}
		o.side = map[int]any{-1: t}
		w.typeObjs[t] = o
	}
	return o
}

var reflectTypeOnce *RType

func reflectRType() *RType {
	if p := mach.l.ByPath["reflect"]; p != nil {
		if t := p.Type("rtype"); t != nil {
			return rtype(types.NewPointer(t.Type()))
		}
	}
	return nil
}

// typeIface is a reflect.Type value for t.
func (w *W) typeIface(t *RType) Value {
	rt := reflectRType()
	if rt == nil {
		w.unsupported("reflect not loaded")
	}
	return Value{P: &Iface{t: rt, v: Value{P: w.typeObj(t)}}}
}

func (w *W) typeOfObj(v Value) *RType {
	o, ok := v.P.(*Obj)
	if !ok {
		w.nilDeref()
	}
	t, ok := o.side[-1].(*RType)
	if !ok {
		w.unsupported("foreign reflect type")
	}
	return t
}

func (w *W) typeArg(v Value) *RType {
	i, ok := v.P.(*Iface)
	if !ok {
		w.nilDeref()
	}
	return w.typeOfObj(i.v)
}

func (w *W) mkRV(t *RType, p Value, flag uint64) Value {
	return Value{P: &Agg{v: []Value{{P: w.typeObj(t)}, p, {N: flag}}}}
}

func (w *W) rv(v Value) (*RType, Value, uint64) {
	a := v.P.(*Agg).v
	if a[0].P == nil {
		panic(targetPanic{w.ex.runtimeError("reflect: call of method on zero Value"), false})
	}
	return w.typeOfObj(a[0]), a[1], a[2].N
}

func (w *W) rvOf(t *RType, v Value) Value {
	o := w.newObj(t.slots)
	if t.slots > 0 {
		w.store(Value{P: o}, v, t)
	}
	return w.mkRV(t, Value{P: o}, rvValid)
}

func (w *W) rvLoad(v Value) (*RType, Value) {
	t, p, _ := w.rv(v)
	if t.slots == 0 {
		return t, zeroVal(t)
	}
	return t, w.load(p, t)
}

func kindNum(t *RType) uint64 {
	if b, ok := t.T.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool:
			return uint64(reflect.Bool)
		case types.Int:
			return uint64(reflect.Int)
		case types.Int8:
			return uint64(reflect.Int8)
		case types.Int16:
			return uint64(reflect.Int16)
		case types.Int32:
			return uint64(reflect.Int32)
		case types.Int64:
			return uint64(reflect.Int64)
		case types.Uint:
			return uint64(reflect.Uint)
		case types.Uint8:
			return uint64(reflect.Uint8)
		case types.Uint16:
			return uint64(reflect.Uint16)
		case types.Uint32:
			return uint64(reflect.Uint32)
		case types.Uint64:
			return uint64(reflect.Uint64)
		case types.Uintptr:
			return uint64(reflect.Uintptr)
		case types.Float32:
			return uint64(reflect.Float32)
		case types.Float64:
			return uint64(reflect.Float64)
		case types.String:
			return uint64(reflect.String)
		case types.UnsafePointer:
			return uint64(reflect.UnsafePointer)
		}
	}
	switch t.kind {
	case KArray:
		return uint64(reflect.Array)
	case KChan:
		return uint64(reflect.Chan)
	case KFunc:
		return uint64(reflect.Func)
	case KIface:
		return uint64(reflect.Interface)
	case KMap:
		return uint64(reflect.Map)
	case KPtr:
		return uint64(reflect.Pointer)
	case KSlice:
		return uint64(reflect.Slice)
	case KStruct:
		return uint64(reflect.Struct)
	}
	return 0
}

func typName(t *RType) (string, string) {
	switch n := t.T.(type) {
	case *types.Named:
		p := ""
		if n.Obj().Pkg() != nil {
			p = n.Obj().Pkg().Path()
		}
		return n.Obj().Name(), p
	case *types.Basic:
		return n.Name(), ""
	}
	return "", ""
}

func ptrElem(t *RType) *RType { return rtype(t.T.Underlying().(*types.Pointer).Elem()) }

func init() {
	reg("reflect.TypeOf", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i, ok := a[0].P.(*Iface)
		if !ok {
			return ret(Value{})
		}
		return ret(g.w.typeIface(i.t))
	})
	reg("reflect.TypeFor", func(g *Gor, fn *Func, a []Value) (Value, int) {
		ta := fn.fn.TypeArgs()
		if len(ta) != 1 {
			g.w.unsupported("reflect.TypeFor without type argument")
		}
		return ret(g.w.typeIface(rtype(ta[0])))
	})
	tm := func(n string, f func(w *W, t *RType, a []Value) Value) {
		reg("(*reflect.rtype)."+n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			return ret(f(g.w, g.w.typeOfObj(a[0]), a[1:]))
		})
	}
	tm("Kind", func(w *W, t *RType, a []Value) Value { return Value{N: kindNum(t)} })
	tm("Elem", func(w *W, t *RType, a []Value) Value {
		if t.kind == KPtr {
			return w.typeIface(ptrElem(t))
		}
		if t.elem == nil {
			panic(targetPanic{w.ex.runtimeError("reflect: Elem of invalid type " + t.String()), false})
		}
		return w.typeIface(t.elem)
	})
	tm("Key", func(w *W, t *RType, a []Value) Value { return w.typeIface(t.key) })
	tm("Len", func(w *W, t *RType, a []Value) Value { return Value{N: uint64(t.n)} })
	tm("NumField", func(w *W, t *RType, a []Value) Value { return Value{N: uint64(len(t.fields))} })
	tm("Name", func(w *W, t *RType, a []Value) Value { n, _ := typName(t); return mkStr(n) })
	tm("PkgPath", func(w *W, t *RType, a []Value) Value { _, p := typName(t); return mkStr(p) })
	tm("String", func(w *W, t *RType, a []Value) Value {
		return mkStr(types.TypeString(t.T, func(p *types.Package) string { return p.Name() }))
	})
	tm("Comparable", func(w *W, t *RType, a []Value) Value { return b2v(types.Comparable(t.T)) })
	tm("Implements", func(w *W, t *RType, a []Value) Value { return b2v(implements(t, w.typeArg(a[0]))) })
	tm("AssignableTo", func(w *W, t *RType, a []Value) Value { return b2v(types.AssignableTo(t.T, w.typeArg(a[0]).T)) })
	tm("ConvertibleTo", func(w *W, t *RType, a []Value) Value { return b2v(types.ConvertibleTo(t.T, w.typeArg(a[0]).T)) })
	tm("NumMethod", func(w *W, t *RType, a []Value) Value {
		if t.kind == KIface {
			return Value{N: uint64(t.T.Underlying().(*types.Interface).NumMethods())}
		}
		n := 0
		ms := types.NewMethodSet(t.T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return Value{N: uint64(n)}
	})
	sf := func(w *W, t *RType, i int) Value {
		st := t.T.Underlying().(*types.Struct)
		f := st.Field(i)
		pp := ""
		if !f.Exported() {
			pp = f.Pkg().Path()
		}
		ix := &Slice{obj: w.newObj(1), len: 1, cap: 1}
		ix.obj.slots[0].N = uint64(i)
		return Value{P: &Agg{v: []Value{mkStr(f.Name()), mkStr(pp), w.typeIface(t.fields[i].t), mkStr(st.Tag(i)), {N: uint64(t.fields[i].off)}, {P: ix}, b2v(f.Anonymous())}}}
	}
	tm("Field", func(w *W, t *RType, a []Value) Value { return sf(w, t, int(w.concInt(a[0], nil))) })
	tm("FieldByName", func(w *W, t *RType, a []Value) Value {
		n := w.cs(a[0])
		st := t.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Value{P: &Agg{v: []Value{sf(w, t, i), {N: 1}}}}
			}
		}
		w.unsupported("reflect FieldByName miss")
		return Value{}
	})

	reg("reflect.ValueOf", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i, ok := a[0].P.(*Iface)
		if !ok {
			return ret(Value{P: &Agg{v: make([]Value, 3)}})
		}
		return ret(g.w.rvOf(i.t, i.v))
	})
	reg("reflect.Indirect", func(g *Gor, fn *Func, a []Value) (Value, int) {
		t, v := g.w.rvLoad(a[0])
		if t.kind != KPtr {
			return ret(a[0])
		}
		return ret(g.w.mkRV(ptrElem(t), v, rvValid|rvAddr))
	})
	reg("reflect.Zero", func(g *Gor, fn *Func, a []Value) (Value, int) {
		t := g.w.typeArg(a[0])
		return ret(g.w.rvOf(t, zeroVal(t)))
	})
	reg("reflect.New", func(g *Gor, fn *Func, a []Value) (Value, int) {
		t := g.w.typeArg(a[0])
		o := g.w.newObj(t.slots)
		return ret(g.w.rvOf(rtype(types.NewPointer(t.T)), Value{P: o}))
	})
	reg("reflect.MakeSlice", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		t := w.typeArg(a[0])
		n, c := int(w.concInt(a[1], nil)), int(w.concInt(a[2], nil))
		return ret(w.rvOf(t, Value{P: &Slice{obj: w.newObj(c * t.elem.slots), len: n, cap: c}}))
	})
	mm := func(g *Gor, fn *Func, a []Value) (Value, int) {
		t := g.w.typeArg(a[0])
		return ret(g.w.rvOf(t, Value{P: g.w.newMap(t.key)}))
	}
	reg("reflect.MakeMap", mm)
	reg("reflect.MakeMapWithSize", mm)
	reg("reflect.PointerTo", func(g *Gor, fn *Func, a []Value) (Value, int) {
		return ret(g.w.typeIface(rtype(types.NewPointer(g.w.typeArg(a[0]).T))))
	})
	reg("reflect.DeepEqual", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		x, ok1 := a[0].P.(*Iface)
		y, ok2 := a[1].P.(*Iface)
		if !ok1 || !ok2 {
			return ret(b2v(ok1 == ok2))
		}
		if x.t != y.t {
			return ret(Value{})
		}
		return ret(b2v(w.deepEq(x.v, y.v, x.t, 0)))
	})
	vm := func(n string, f func(w *W, v Value, a []Value) Value) {
		reg("(reflect.Value)."+n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			return ret(f(g.w, a[0], a[1:]))
		})
	}
	vm("IsValid", func(w *W, v Value, a []Value) Value { return b2v(v.P.(*Agg).v[0].P != nil) })
	vm("Kind", func(w *W, v Value, a []Value) Value {
		if v.P.(*Agg).v[0].P == nil {
			return Value{}
		}
		t, _, _ := w.rv(v)
		return Value{N: kindNum(t)}
	})
	vm("Type", func(w *W, v Value, a []Value) Value { t, _, _ := w.rv(v); return w.typeIface(t) })
	vm("CanSet", func(w *W, v Value, a []Value) Value { _, _, f := w.rv(v); return b2v(f&rvAddr != 0) })
	vm("CanAddr", func(w *W, v Value, a []Value) Value { _, _, f := w.rv(v); return b2v(f&rvAddr != 0) })
	vm("CanInterface", func(w *W, v Value, a []Value) Value { return Value{N: 1} })
	vm("Interface", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		if t.kind == KIface {
			return x
		}
		return Value{P: &Iface{t: t, v: x}}
	})
	vm("Elem", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		switch t.kind {
		case KPtr:
			if x.P == nil {
				return Value{P: &Agg{v: make([]Value, 3)}}
			}
			return w.mkRV(ptrElem(t), x, rvValid|rvAddr)
		case KIface:
			i, ok := x.P.(*Iface)
			if !ok {
				return Value{P: &Agg{v: make([]Value, 3)}}
			}
			return w.rvOf(i.t, i.v)
		}
		panic(targetPanic{w.ex.runtimeError("reflect: call of reflect.Value.Elem on " + t.String()), false})
	})
	vm("Addr", func(w *W, v Value, a []Value) Value {
		t, p, _ := w.rv(v)
		return w.rvOf(rtype(types.NewPointer(t.T)), p)
	})
	vm("NumField", func(w *W, v Value, a []Value) Value { t, _, _ := w.rv(v); return Value{N: uint64(len(t.fields))} })
	vm("Field", func(w *W, v Value, a []Value) Value {
		t, p, f := w.rv(v)
		fd := t.fields[int(w.concInt(a[0], nil))]
		return w.mkRV(fd.t, w.fieldAddr(p, fd.off), f)
	})
	vm("FieldByName", func(w *W, v Value, a []Value) Value {
		t, p, f := w.rv(v)
		n := w.cs(a[0])
		st := t.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return w.mkRV(t.fields[i].t, w.fieldAddr(p, t.fields[i].off), f)
			}
		}
		return Value{P: &Agg{v: make([]Value, 3)}}
	})
	vm("IsZero", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		if t.kind == KFunc || t.kind == KMap || t.kind == KSlice || t.kind == KChan {
			return b2v(x.P == nil)
		}
		return w.eq(x, zeroVal(t), t)
	})
	vm("IsNil", func(w *W, v Value, a []Value) Value { _, x := w.rvLoad(v); return b2v(x.P == nil) })
	vm("Len", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		switch t.kind {
		case KString:
			return Value{N: uint64(strLen(x))}
		case KArray:
			return Value{N: uint64(t.n)}
		case KSlice:
			if x.P == nil {
				return Value{}
			}
			return Value{N: uint64(x.P.(*Slice).len)}
		case KMap:
			if x.P == nil {
				return Value{}
			}
			return Value{N: uint64(x.P.(*MapV).d.nlive)}
		}
		w.unsupported("reflect Len of %v", t)
		return Value{}
	})
	vm("Index", func(w *W, v Value, a []Value) Value {
		t, p, f := w.rv(v)
		i := int(w.concInt(a[0], nil))
		switch t.kind {
		case KArray:
			return w.mkRV(t.elem, w.fieldAddr(p, i*t.elem.slots), f)
		case KSlice:
			x := w.load(p, t)
			s, ok := x.P.(*Slice)
			if !ok || i < 0 || i >= s.len {
				panic(targetPanic{w.ex.runtimeError("reflect: slice index out of range"), false})
			}
			return w.mkRV(t.elem, Value{P: s.obj, N: uint64(s.off + i*t.elem.slots)}, rvValid|rvAddr)
		case KString:
			x := w.load(p, t)
			return w.rvOf(rtype(types.Typ[types.Uint8]), strAt(x, i))
		}
		w.unsupported("reflect Index of %v", t)
		return Value{}
	})
	setv := func(w *W, v Value, x Value) Value {
		t, p, f := w.rv(v)
		if f&rvAddr == 0 {
			panic(targetPanic{w.ex.runtimeError("reflect: using unaddressable value"), false})
		}
		if t.slots > 0 {
			w.store(p, x, t)
		}
		return Value{}
	}
	vm("Set", func(w *W, v Value, a []Value) Value {
		t, _, _ := w.rv(v)
		st, x := w.rvLoad(a[0])
		if t.kind == KIface && st.kind != KIface {
			x = Value{P: &Iface{t: st, v: x}}
		}
		return setv(w, v, x)
	})
	vm("SetZero", func(w *W, v Value, a []Value) Value { t, _, _ := w.rv(v); return setv(w, v, zeroVal(t)) })
	vm("SetString", func(w *W, v Value, a []Value) Value { return setv(w, v, a[0]) })
	vm("SetBool", func(w *W, v Value, a []Value) Value { return setv(w, v, a[0]) })
	vm("SetInt", func(w *W, v Value, a []Value) Value {
		t, _, _ := w.rv(v)
		return setv(w, v, w.convert(a[0], rtype(types.Typ[types.Int64]), t))
	})
	vm("SetUint", func(w *W, v Value, a []Value) Value {
		t, _, _ := w.rv(v)
		return setv(w, v, w.convert(a[0], rtype(types.Typ[types.Uint64]), t))
	})
	vm("SetFloat", func(w *W, v Value, a []Value) Value {
		t, _, _ := w.rv(v)
		return setv(w, v, w.convert(a[0], rtype(types.Typ[types.Float64]), t))
	})
	conv := func(k types.BasicKind) func(w *W, v Value, a []Value) Value {
		return func(w *W, v Value, a []Value) Value {
			t, x := w.rvLoad(v)
			return w.convert(x, t, rtype(types.Typ[k]))
		}
	}
	vm("Int", conv(types.Int64))
	vm("Uint", conv(types.Uint64))
	vm("Float", conv(types.Float64))
	vm("Bool", func(w *W, v Value, a []Value) Value { _, x := w.rvLoad(v); return x })
	vm("String", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		if t.kind == KString {
			return x
		}
		return mkStr("<" + t.String() + " Value>")
	})
	vm("MapKeys", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		var out []Value
		if m, ok := x.P.(*MapV); ok {
			for _, e := range m.d.ents {
				if e.live {
					out = append(out, w.rvOf(t.key, e.k).P.(*Agg).v...)
				}
			}
		}
		n := len(out) / 3
		o := w.newObj(len(out))
		copy(o.slots, out)
		return Value{P: &Slice{obj: o, len: n, cap: n}}
	})
	vm("MapIndex", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		_, k := w.rvLoad(a[0])
		m, ok := x.P.(*MapV)
		if ok {
			if e, ok := w.mapGet(m, k); ok {
				return w.rvOf(t.elem, e)
			}
		}
		return Value{P: &Agg{v: make([]Value, 3)}}
	})
	vm("SetMapIndex", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		_, k := w.rvLoad(a[0])
		m, ok := x.P.(*MapV)
		if !ok {
			panic(targetPanic{w.ex.runtimeError("assignment to entry in nil map"), true})
		}
		if a[1].P.(*Agg).v[0].P == nil {
			w.mapDel(m, k)
			return Value{}
		}
		et, e := w.rvLoad(a[1])
		if t.elem.kind == KIface && et.kind != KIface {
			e = Value{P: &Iface{t: et, v: e}}
		}
		w.mapSet(m, k, e)
		return Value{}
	})
	vm("Convert", func(w *W, v Value, a []Value) Value {
		t, x := w.rvLoad(v)
		to := w.typeArg(a[0])
		if to.kind == KIface {
			if t.kind != KIface {
				x = Value{P: &Iface{t: t, v: x}}
			}
			return w.rvOf(to, x)
		}
		return w.rvOf(to, w.convert(x, t, to))
	})
	vm("NumMethod", func(w *W, v Value, a []Value) Value {
		t, _, _ := w.rv(v)
		return Value{N: uint64(types.NewMethodSet(t.T).Len())}
	})
	reg("reflect.Append", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		t, s := w.rvLoad(a[0])
		xs, ok := a[1].P.(*Slice)
		if !ok {
			return ret(a[0])
		}
		for i := 0; i < xs.len; i++ {
			x := Value{P: &Agg{v: append([]Value(nil), xs.obj.slots[xs.off+3*i:xs.off+3*i+3]...)}}
			et, e := w.rvLoad(x)
			if t.elem.kind == KIface && et.kind != KIface {
				e = Value{P: &Iface{t: et, v: e}}
			}
			o := w.newObj(t.elem.slots)
			if t.elem.slots > 0 {
				w.store(Value{P: o}, e, t.elem)
			}
			s = w.appendSlice(s, Value{P: &Slice{obj: o, len: 1, cap: 1}}, t.elem, false)
		}
		return ret(w.rvOf(t, s))
	})
	_ = math.Pi
}

func (w *W) deepEq(x, y Value, t *RType, d int) bool {
	if d > 50 {
		panic(pathEnd{"bound", "DeepEqual depth"})
	}
	switch t.kind {
	case KPtr:
		if x.P == nil || y.P == nil {
			return x.P == nil && y.P == nil && x.N == y.N
		}
		if w.truth(w.ptrEq(x, y)) {
			return true
		}
		et := ptrElem(t)
		return w.deepEq(w.load(x, et), w.load(y, et), et, d+1)
	case KSlice:
		if x.P == nil || y.P == nil {
			return x.P == nil && y.P == nil
		}
		a, b := x.P.(*Slice), y.P.(*Slice)
		if a.len != b.len {
			return false
		}
		for i := 0; i < a.len; i++ {
			p := Value{P: a.obj, N: uint64(a.off + i*t.elem.slots)}
			q := Value{P: b.obj, N: uint64(b.off + i*t.elem.slots)}
			if t.elem.slots > 0 && !w.deepEq(w.load(p, t.elem), w.load(q, t.elem), t.elem, d+1) {
				return false
			}
		}
		return true
	case KMap:
		if x.P == nil || y.P == nil {
			return x.P == nil && y.P == nil
		}
		a, b := x.P.(*MapV), y.P.(*MapV)
		if a.d.nlive != b.d.nlive {
			return false
		}
		for _, e := range a.d.ents {
			if !e.live {
				continue
			}
			o, ok := w.mapGet(b, e.k)
			if !ok || !w.deepEq(e.v, o, t.elem, d+1) {
				return false
			}
		}
		return true
	case KIface:
		a, ok1 := x.P.(*Iface)
		b, ok2 := y.P.(*Iface)
		if !ok1 || !ok2 {
			return ok1 == ok2
		}
		return a.t == b.t && w.deepEq(a.v, b.v, a.t, d+1)
	case KFunc:
		return x.P == nil && y.P == nil
	case KStruct:
		p, q := x.P.(*Agg).v, y.P.(*Agg).v
		for _, f := range t.fields {
			if f.t.slots == 0 {
				continue
			}
			var fx, fy Value
			if f.t.agg() {
				fx, fy = Value{P: &Agg{v: p[f.off : f.off+f.t.slots]}}, Value{P: &Agg{v: q[f.off : f.off+f.t.slots]}}
			} else {
				fx, fy = p[f.off], q[f.off]
			}
			if !w.deepEq(fx, fy, f.t, d+1) {
				return false
			}
		}
		return true
	case KArray:
		p, q := x.P.(*Agg).v, y.P.(*Agg).v
		n := t.elem.slots
		for i := 0; i < t.n; i++ {
			var fx, fy Value
			if t.elem.agg() {
				fx, fy = Value{P: &Agg{v: p[i*n : (i+1)*n]}}, Value{P: &Agg{v: q[i*n : (i+1)*n]}}
			} else {
				fx, fy = p[i*n], q[i*n]
			}
			if !w.deepEq(fx, fy, t.elem, d+1) {
				return false
			}
		}
		return true
	}
	return w.truth(w.eq(x, y, t))
}

func init() {
	reg("internal/reflectlite.TypeOf", func(g *Gor, fn *Func, a []Value) (Value, int) {
		i, ok := a[0].P.(*Iface)
		if !ok {
			return ret(Value{})
		}
		p := mach.l.ByPath["internal/reflectlite"]
		rt := rtype(p.Type("rtype").Type())
		return ret(Value{P: &Iface{t: rt, v: Value{P: &Agg{v: []Value{{P: g.w.typeObj(i.t)}}}}}})
	})
	lt := func(n string, f func(w *W, t *RType) Value) {
		reg("(internal/reflectlite.rtype)."+n, func(g *Gor, fn *Func, a []Value) (Value, int) {
			return ret(f(g.w, g.w.typeOfObj(a[0].P.(*Agg).v[0])))
		})
	}
	lt("Comparable", func(w *W, t *RType) Value { return b2v(types.Comparable(t.T)) })
	lt("String", func(w *W, t *RType) Value {
		return mkStr(types.TypeString(t.T, func(p *types.Package) string { return p.Name() }))
	})
	lt("Kind", func(w *W, t *RType) Value { return Value{N: kindNum(t)} })
}
