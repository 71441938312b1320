package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is one slot. Scalars: P==nil => concrete N, otherwise P is *Term.
// Strings: P *Str (nil = ""), N = off<<32|len. Pointers: P *Obj (or *SymPtr),
// N = slot offset. Slices: P *Slice. Maps, chans, funcs, interfaces, aggregates
// are held in P (nil = zero value).
type Value struct {
	N uint64
	P any
}

type Str struct {
	s   string
	sym []Value
}

type Obj struct {
	slots  []Value
	base   bool
	id     uint64
	name   string
	side   map[int]any
	shadow map[int]*shadowCell
}

// SymPtr points at obj.slots[base + idx*stride + extra], 0 <= idx < n.
type SymPtr struct {
	obj    *Obj
	base   int
	stride int
	n      int
	extra  int
	idx    *Term // width 64
}

type Slice struct {
	obj           *Obj
	off, len, cap int // off in slots; len and cap in elements
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn    *Func
	binds []Value
}

type Agg struct{ v []Value }

type MapV struct {
	d    *mapData
	base bool
	jr   int64 // path generation in which the base data was saved
	kt   *RType
	id   uint64
	hdr  *Obj // for race detection
}

type ment struct {
	k, v Value
	live bool
}

type mkey struct {
	s string
	n uint64
	p any
}

type mapData struct {
	idx   map[mkey]int
	ents  []ment
	nlive int
	nsym  int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	id     uint64
	sendq  []*sendWait
	recvN  int // goroutines blocked receiving
	vcs    []vclock
	cvc    vclock
}

type sendWait struct {
	v    Value
	g    *Gor
	done bool
	vc   vclock
}

type Iter struct {
	str  Value
	pos  int
	m    *MapV
	i    int
	perm []int
	ord  bool
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

type RField struct {
	off int
	t   *RType
}

type RType struct {
	T      types.Type
	kind   Kind
	slots  int
	w      uint8
	signed bool
	fields []RField
	elem   *RType
	key    *RType
	n      int
	id     int
	meths  sync.Map // name id -> *Func (or nil)
	impl   sync.Map // *RType(iface) -> bool
	resolv bool
}

func (t *RType) agg() bool { return t.kind == KStruct || t.kind == KArray }

type typeTable struct {
	mu  sync.Mutex
	m   typeutil.Map
	ptr sync.Map
	n   int
}

var tt typeTable

func rtype(T types.Type) *RType {
	if v, ok := tt.ptr.Load(T); ok {
		return v.(*RType)
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	r := rtypeLocked(T)
	return r
}

func rtypeLocked(T types.Type) *RType {
	if v := tt.m.At(T); v != nil {
		r := v.(*RType)
		tt.ptr.Store(T, r)
		return r
	}
	r := &RType{T: T, id: tt.n}
	tt.n++
	tt.m.Set(T, r)
	switch u := T.Underlying().(type) {
	case *types.Basic:
		r.slots = 1
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			r.kind = KBool
			r.w = 0
		case info&types.IsInteger != 0:
			r.kind = KInt
			r.signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
		case info&types.IsFloat != 0:
			r.kind = KFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case info&types.IsComplex != 0:
			r.kind = KComplex
		case info&types.IsString != 0:
			r.kind = KString
		case u.Kind() == types.UnsafePointer:
			r.kind = KUnsafe
		default: // untyped nil, invalid
			r.kind = KPtr
		}
	case *types.Pointer:
		r.kind, r.slots = KPtr, 1
	case *types.Slice:
		r.kind, r.slots = KSlice, 1
		r.elem = rtypeLocked(u.Elem())
	case *types.Map:
		r.kind, r.slots = KMap, 1
		r.key = rtypeLocked(u.Key())
		r.elem = rtypeLocked(u.Elem())
	case *types.Chan:
		r.kind, r.slots = KChan, 1
		r.elem = rtypeLocked(u.Elem())
	case *types.Signature:
		r.kind, r.slots = KFunc, 1
	case *types.Interface:
		r.kind, r.slots = KIface, 1
	case *types.Struct:
		r.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := rtypeLocked(u.Field(i).Type())
			r.fields = append(r.fields, RField{off, ft})
			off += ft.slots
		}
		r.slots = off
	case *types.Array:
		r.kind = KArray
		r.elem = rtypeLocked(u.Elem())
		r.n = int(u.Len())
		r.slots = r.n * r.elem.slots
	case *types.Tuple:
		r.kind = KTuple
		r.slots = u.Len()
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, RField{i, rtypeLocked(u.At(i).Type())})
		}
	default:
		r.kind, r.slots = KPtr, 1 // opaque (e.g. ssa range iterators)
	}
	tt.ptr.Store(T, r)
	return r
}

func (r *RType) String() string { return r.T.String() }

// zeroVal returns the zero Value of a type held in one register.
func zeroVal(t *RType) Value {
	if t.agg() {
		return Value{P: &Agg{v: make([]Value, t.slots)}}
	}
	if t.kind == KTuple {
		a := &Agg{v: make([]Value, t.slots)}
		for i, f := range t.fields {
			a.v[i] = zeroVal(f.t)
		}
		return Value{P: a}
	}
	return Value{}
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: &Str{s: s}, N: uint64(len(s))}
}

func strLen(v Value) int { return int(v.N & 0xffffffff) }
func strOff(v Value) int { return int(v.N >> 32) }

func subStr(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	return Value{P: v.P, N: uint64(strOff(v)+lo)<<32 | uint64(hi-lo)}
}

func strAt(v Value, i int) Value {
	st := v.P.(*Str)
	o := strOff(v) + i
	if st.sym != nil {
		return st.sym[o]
	}
	return Value{N: uint64(st.s[o])}
}

// conc returns the string if every byte of it is concrete.
func conc(v Value) (string, bool) {
	if v.P == nil {
		return "", true
	}
	st := v.P.(*Str)
	o, n := strOff(v), strLen(v)
	if st.sym == nil {
		return st.s[o : o+n], true
	}
	for _, b := range st.sym[o : o+n] {
		if b.P != nil {
			return "", false
		}
	}
	buf := make([]byte, n)
	for i, b := range st.sym[o : o+n] {
		buf[i] = byte(b.N)
	}
	return string(buf), true
}

func strBytes(v Value) []Value {
	n := strLen(v)
	if n == 0 {
		return nil
	}
	st := v.P.(*Str)
	o := strOff(v)
	if st.sym != nil {
		return st.sym[o : o+n]
	}
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		out[i].N = uint64(st.s[o+i])
	}
	return out
}

func bytesToStr(bs []Value) Value {
	if len(bs) == 0 {
		return Value{}
	}
	for _, b := range bs {
		if b.P != nil {
			cp := make([]Value, len(bs))
			copy(cp, bs)
			return Value{P: &Str{sym: cp}, N: uint64(len(bs))}
		}
	}
	buf := make([]byte, len(bs))
	for i, b := range bs {
		buf[i] = byte(b.N)
	}
	return mkStr(string(buf))
}

func catStr(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	sa, sb := a.P.(*Str), b.P.(*Str)
	if sa.sym == nil && sb.sym == nil {
		oa, ob := strOff(a), strOff(b)
		return mkStr(sa.s[oa:oa+strLen(a)] + sb.s[ob:ob+strLen(b)])
	}
	x := strBytes(a)
	y := strBytes(b)
	out := make([]Value, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return bytesToStr(out)
}

// keyOf encodes a concrete value as a map key. ok=false if it has symbolic parts.
func keyOf(v Value, t *RType) (mkey, bool) {
	switch t.kind {
	case KString:
		s, ok := conc(v)
		return mkey{s: s}, ok
	case KIface:
		if v.P == nil {
			return mkey{}, true
		}
		i := v.P.(*Iface)
		k, ok := keyOf(i.v, i.t)
		if !ok {
			return k, false
		}
		if k.p == nil && k.s == "" {
			return mkey{n: k.n, p: i.t}, true
		}
		return mkey{s: encKey(k) + "#" + fmt.Sprint(i.t.id), n: 1}, true
	case KStruct, KArray:
		var sb strings.Builder
		ok := encAgg(&sb, v.P.(*Agg).v, t)
		return mkey{s: sb.String(), n: 2}, ok
	case KFloat:
		if v.N<<1 == 0 { // +0 == -0
			return mkey{}, true
		}
		return mkey{n: v.N}, v.P == nil
	default:
		if v.P == nil {
			return mkey{n: v.N}, true
		}
		switch p := v.P.(type) {
		case *Term:
			return mkey{}, false
		case *SymPtr:
			return mkey{}, false
		default:
			return mkey{n: v.N, p: p}, true
		}
	}
}

func ptrID(p any) uint64 {
	switch p := p.(type) {
	case *Obj:
		return p.id
	case *MapV:
		return p.id
	case *Chan:
		return p.id
	case *RType:
		return uint64(p.id)<<32 | 7
	case *Closure:
		return uint64(p.fn.id)<<32 | 9
	}
	return 0
}

func encKey(k mkey) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], k.n)
	s := string(b[:])
	if k.p != nil {
		binary.LittleEndian.PutUint64(b[:], ptrID(k.p))
		s += "p" + string(b[:])
	}
	binary.LittleEndian.PutUint64(b[:], uint64(len(k.s)))
	return s + string(b[:]) + k.s
}

func encAgg(sb *strings.Builder, vs []Value, t *RType) bool {
	switch t.kind {
	case KStruct:
		for _, f := range t.fields {
			if !encAgg(sb, vs[f.off:f.off+f.t.slots], f.t) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !encAgg(sb, vs[i*t.elem.slots:(i+1)*t.elem.slots], t.elem) {
				return false
			}
		}
		return true
	}
	k, ok := keyOf(vs[0], t)
	if !ok {
		return false
	}
	sb.WriteString(encKey(k))
	return true
}

func newMapData() *mapData { return &mapData{idx: map[mkey]int{}} }

func (d *mapData) clone() *mapData {
	n := &mapData{idx: make(map[mkey]int, len(d.idx)), ents: make([]ment, len(d.ents)), nlive: d.nlive, nsym: d.nsym}
	for k, v := range d.idx {
		n.idx[k] = v
	}
	copy(n.ents, d.ents)
	return n
}
