package main

import (
	"fmt"
	"go/token"
	"math"
	"unicode/utf8"
)

func (w *W) term(v Value, width uint8) *Term {
	if v.P == nil {
		return w.ts.Const(width, v.N)
	}
	t, ok := v.P.(*Term)
	if !ok {
		w.unsupported("pointer used as a number (%T)", v.P)
	}
	return t
}

func tv(t *Term) Value {
	if t.op == OpConst {
		return Value{N: t.k}
	}
	return Value{P: t}
}

func b2v(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func (w *W) not(v Value) Value {
	if v.P == nil {
		return Value{N: 1 - v.N}
	}
	return tv(w.ts.Not(v.P.(*Term)))
}

func (w *W) and(a, b Value) Value {
	if a.P == nil {
		if a.N == 0 {
			return a
		}
		return b
	}
	if b.P == nil {
		if b.N == 0 {
			return b
		}
		return a
	}
	return tv(w.ts.And(a.P.(*Term), b.P.(*Term)))
}

func (w *W) truth(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return w.branch(v.P.(*Term))
}

func (w *W) rtPanic(msg string) {
	// a runtime.Error value: modelled by vmodel.RuntimeError (string)
	panic(targetPanic{w.ex.runtimeError("runtime error: " + msg), true})
}

func (w *W) ptrEq(a, b Value) Value {
	sa, oka := a.P.(*SymPtr)
	sb, okb := b.P.(*SymPtr)
	if oka || okb {
		if oka && okb && sa.obj == sb.obj && sa.stride == sb.stride {
			return tv(w.ts.Eq(sa.idx, sb.idx))
		}
		if oka {
			a = w.concPtr(a)
		}
		if okb {
			b = w.concPtr(b)
		}
	}
	if t, ok := a.P.(*Term); ok {
		return tv(w.ts.Eq(t, w.term(b, t.w)))
	}
	if t, ok := b.P.(*Term); ok {
		return tv(w.ts.Eq(t, w.term(a, t.w)))
	}
	return b2v(a.P == b.P && a.N == b.N)
}

func (w *W) concPtr(v Value) Value {
	if s, ok := v.P.(*SymPtr); ok {
		i := int(w.concretize(s.idx))
		return Value{P: s.obj, N: uint64(s.base + i*s.stride + s.extra)}
	}
	return v
}

// eq compares two values of the same type.
func (w *W) eq(a, b Value, t *RType) Value {
	switch t.kind {
	case KBool, KInt:
		if a.P == nil && b.P == nil {
			return b2v(a.N == b.N)
		}
		if _, ok := a.P.(*Term); !ok && a.P != nil {
			return w.ptrEq(a, b)
		}
		if _, ok := b.P.(*Term); !ok && b.P != nil {
			return w.ptrEq(a, b)
		}
		return tv(w.ts.Eq(w.term(a, t.w), w.term(b, t.w)))
	case KFloat:
		a, b = w.concF(a), w.concF(b)
		return b2v(fval(a, t) == fval(b, t))
	case KString:
		return w.strEq(a, b)
	case KIface:
		if a.P == nil || b.P == nil {
			return b2v(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return Value{}
		}
		switch x.t.kind {
		case KSlice, KMap, KFunc:
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.v, y.v, x.t)
	case KStruct, KArray:
		return w.eqAgg(a.P.(*Agg).v, b.P.(*Agg).v, t)
	case KFunc:
		return b2v(a.P == nil && b.P == nil)
	case KSlice:
		return b2v(a.P == nil && b.P == nil)
	}
	return w.ptrEq(a, b)
}

func (w *W) eqAgg(a, b []Value, t *RType) Value {
	r := Value{N: 1}
	if t.kind == KStruct {
		for _, f := range t.fields {
			x, y := a[f.off:f.off+f.t.slots], b[f.off:f.off+f.t.slots]
			if f.t.agg() {
				r = w.and(r, w.eqAgg(x, y, f.t))
			} else {
				r = w.and(r, w.eq(x[0], y[0], f.t))
			}
		}
		return r
	}
	for i := 0; i < t.n; i++ {
		n := t.elem.slots
		x, y := a[i*n:(i+1)*n], b[i*n:(i+1)*n]
		if t.elem.agg() {
			r = w.and(r, w.eqAgg(x, y, t.elem))
		} else {
			r = w.and(r, w.eq(x[0], y[0], t.elem))
		}
	}
	return r
}

func (w *W) strEq(a, b Value) Value {
	n := strLen(a)
	if n != strLen(b) {
		return Value{}
	}
	if n == 0 {
		return Value{N: 1}
	}
	sa, sb := a.P.(*Str), b.P.(*Str)
	oa, ob := strOff(a), strOff(b)
	if sa.sym == nil && sb.sym == nil {
		return b2v(sa.s[oa:oa+n] == sb.s[ob:ob+n])
	}
	r := w.ts.True
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.P == nil && y.P == nil {
			if x.N != y.N {
				return Value{}
			}
			continue
		}
		r = w.ts.And(r, w.ts.Eq(w.term(x, 8), w.term(y, 8)))
		if r == w.ts.False {
			return Value{}
		}
	}
	return tv(r)
}

// strLess returns a < b (or a <= b).
func (w *W) strLess(a, b Value, orEq bool) Value {
	if x, ok := conc(a); ok {
		if y, ok := conc(b); ok {
			if orEq {
				return b2v(x <= y)
			}
			return b2v(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	var r *Term
	if orEq {
		r = w.ts.Bool(la <= lb)
	} else {
		r = w.ts.Bool(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(strAt(a, i), 8), w.term(strAt(b, i), 8)
		r = w.ts.Or(w.ts.Ult(x, y), w.ts.And(w.ts.Eq(x, y), r))
	}
	return tv(r)
}

func (w *W) concF(v Value) Value {
	if v.P != nil {
		w.unsupported("symbolic float")
	}
	return v
}

func fval(v Value, t *RType) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}

func mkF(f float64, t *RType) Value {
	if t.w == 32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

func (w *W) binop(op token.Token, a, b Value, t *RType, bt *RType) Value {
	switch t.kind {
	case KInt:
		if a.P == nil && b.P == nil {
			return w.intOp(op, a.N, b.N, t, bt)
		}
		if isPtrish(a) || isPtrish(b) {
			return w.ptrArith(op, a, b, t)
		}
		return w.symOp(op, a, b, t, bt)
	case KString:
		switch op {
		case token.ADD:
			return catStr(a, b)
		case token.EQL:
			return w.strEq(a, b)
		case token.NEQ:
			return w.not(w.strEq(a, b))
		case token.LSS:
			return w.strLess(a, b, false)
		case token.LEQ:
			return w.strLess(a, b, true)
		case token.GTR:
			return w.strLess(b, a, false)
		case token.GEQ:
			return w.strLess(b, a, true)
		}
	case KFloat:
		a, b = w.concF(a), w.concF(b)
		x, y := fval(a, t), fval(b, t)
		switch op {
		case token.ADD:
			return mkF(x+y, t)
		case token.SUB:
			return mkF(x-y, t)
		case token.MUL:
			return mkF(x*y, t)
		case token.QUO:
			return mkF(x/y, t)
		case token.EQL:
			return b2v(x == y)
		case token.NEQ:
			return b2v(x != y)
		case token.LSS:
			return b2v(x < y)
		case token.LEQ:
			return b2v(x <= y)
		case token.GTR:
			return b2v(x > y)
		case token.GEQ:
			return b2v(x >= y)
		}
	default:
		switch op {
		case token.EQL:
			return w.eq(a, b, t)
		case token.NEQ:
			return w.not(w.eq(a, b, t))
		case token.AND:
			return w.and(a, b)
		case token.OR:
			return w.not(w.and(w.not(a), w.not(b)))
		}
	}
	w.unsupported("binop %v on %v", op, t)
	return Value{}
}

func isPtrish(v Value) bool {
	if v.P == nil {
		return false
	}
	_, ok := v.P.(*Term)
	return !ok
}

func (w *W) ptrArith(op token.Token, a, b Value, t *RType) Value {
	switch op {
	case token.EQL:
		return w.ptrEq(a, b)
	case token.NEQ:
		return w.not(w.ptrEq(a, b))
	case token.XOR:
		if b.P == nil && b.N == 0 {
			return a
		}
	case token.ADD, token.OR:
		if b.P == nil && b.N == 0 {
			return a
		}
	case token.AND:
		if b.P == nil {
			return Value{} // alignment tests
		}
	}
	w.unsupported("pointer arithmetic %v", op)
	return Value{}
}

func (w *W) intOp(op token.Token, x, y uint64, t, bt *RType) Value {
	m := mask(t.w)
	switch op {
	case token.ADD:
		return Value{N: (x + y) & m}
	case token.SUB:
		return Value{N: (x - y) & m}
	case token.MUL:
		return Value{N: (x * y) & m}
	case token.AND:
		return Value{N: x & y}
	case token.OR:
		return Value{N: x | y}
	case token.XOR:
		return Value{N: x ^ y}
	case token.AND_NOT:
		return Value{N: x &^ y}
	case token.EQL:
		return b2v(x == y)
	case token.NEQ:
		return b2v(x != y)
	case token.QUO, token.REM:
		if y == 0 {
			w.rtPanic("integer divide by zero")
		}
		if t.signed {
			if op == token.QUO {
				return Value{N: evalOp(OpBSdiv, t.w, 0, t.w, x, y, 0)}
			}
			return Value{N: evalOp(OpBSrem, t.w, 0, t.w, x, y, 0)}
		}
		if op == token.QUO {
			return Value{N: x / y}
		}
		return Value{N: x % y}
	case token.SHL, token.SHR:
		if bt.signed && sext64(y, bt.w) < 0 {
			w.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if y >= uint64(t.w) {
				return Value{}
			}
			return Value{N: (x << y) & m}
		}
		if t.signed {
			if y >= uint64(t.w) {
				y = uint64(t.w) - 1
			}
			return Value{N: uint64(sext64(x, t.w)>>y) & m}
		}
		if y >= uint64(t.w) {
			return Value{}
		}
		return Value{N: x >> y}
	}
	if t.signed {
		a, b := sext64(x, t.w), sext64(y, t.w)
		switch op {
		case token.LSS:
			return b2v(a < b)
		case token.LEQ:
			return b2v(a <= b)
		case token.GTR:
			return b2v(a > b)
		case token.GEQ:
			return b2v(a >= b)
		}
	} else {
		switch op {
		case token.LSS:
			return b2v(x < y)
		case token.LEQ:
			return b2v(x <= y)
		case token.GTR:
			return b2v(x > y)
		case token.GEQ:
			return b2v(x >= y)
		}
	}
	panic("intOp " + op.String())
}

func (w *W) symOp(op token.Token, a, b Value, t, bt *RType) Value {
	s := w.ts
	x := w.term(a, t.w)
	if op == token.SHL || op == token.SHR {
		y := w.term(b, bt.w)
		if bt.signed && y.umax > mask(bt.w)>>1 {
			neg := s.Slt(y, s.Const(bt.w, 0))
			if w.truth(tv(neg)) {
				w.rtPanic("negative shift amount")
			}
		}
		var big *Term
		if y.w > t.w {
			big = s.Not(s.Ult(y, s.Const(y.w, uint64(t.w))))
			y = s.Resize(y, t.w, false)
		} else {
			y = s.Resize(y, t.w, false)
			big = s.Not(s.Ult(y, s.Const(t.w, uint64(t.w))))
		}
		var r, over *Term
		if op == token.SHL {
			r = s.Bin(OpBShl, x, y)
			over = s.Const(t.w, 0)
		} else if t.signed {
			r = s.Bin(OpBAshr, x, y)
			over = s.Bin(OpBAshr, x, s.Const(t.w, uint64(t.w)-1))
		} else {
			r = s.Bin(OpBLshr, x, y)
			over = s.Const(t.w, 0)
		}
		return tv(s.Ite(big, over, r))
	}
	y := w.term(b, t.w)
	switch op {
	case token.ADD:
		return tv(s.Bin(OpBAdd, x, y))
	case token.SUB:
		return tv(s.Bin(OpBSub, x, y))
	case token.MUL:
		return tv(s.Bin(OpBMul, x, y))
	case token.AND:
		return tv(s.Bin(OpBAnd, x, y))
	case token.OR:
		return tv(s.Bin(OpBOr, x, y))
	case token.XOR:
		return tv(s.Bin(OpBXor, x, y))
	case token.AND_NOT:
		return tv(s.Bin(OpBAnd, x, s.BNot(y)))
	case token.EQL:
		return tv(s.Eq(x, y))
	case token.NEQ:
		return tv(s.Not(s.Eq(x, y)))
	case token.QUO, token.REM:
		if w.truth(tv(s.Eq(y, s.Const(t.w, 0)))) {
			w.rtPanic("integer divide by zero")
		}
		if t.signed {
			if op == token.QUO {
				return tv(s.Bin(OpBSdiv, x, y))
			}
			return tv(s.Bin(OpBSrem, x, y))
		}
		if op == token.QUO {
			return tv(s.Bin(OpBUdiv, x, y))
		}
		return tv(s.Bin(OpBUrem, x, y))
	}
	if t.signed {
		switch op {
		case token.LSS:
			return tv(s.Slt(x, y))
		case token.LEQ:
			return tv(s.Sle(x, y))
		case token.GTR:
			return tv(s.Slt(y, x))
		case token.GEQ:
			return tv(s.Sle(y, x))
		}
	} else {
		switch op {
		case token.LSS:
			return tv(s.Ult(x, y))
		case token.LEQ:
			return tv(s.Ule(x, y))
		case token.GTR:
			return tv(s.Ult(y, x))
		case token.GEQ:
			return tv(s.Ule(y, x))
		}
	}
	panic("symOp " + op.String())
}

// convert implements ssa.Convert.
func (w *W) convert(v Value, from, to *RType) Value {
	switch {
	case from.kind == KInt && to.kind == KInt:
		if v.P == nil {
			if from.signed {
				return Value{N: uint64(sext64(v.N, from.w)) & mask(to.w)}
			}
			return Value{N: v.N & mask(to.w)}
		}
		if t, ok := v.P.(*Term); ok {
			return tv(w.ts.Resize(t, to.w, from.signed))
		}
		return v
	case from.kind == KInt && to.kind == KFloat:
		n := w.concInt(v, from)
		if from.signed {
			return mkF(float64(n), to)
		}
		return mkF(float64(uint64(n)), to)
	case from.kind == KFloat && to.kind == KInt:
		f := fval(w.concF(v), from)
		if to.signed {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		if f < 0 {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case from.kind == KFloat && to.kind == KFloat:
		return mkF(fval(w.concF(v), from), to)
	case from.kind == KInt && to.kind == KString:
		return w.runeToStr(v, from)
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			bs := strBytes(v)
			o := w.newObj(len(bs))
			copy(o.slots, bs)
			return Value{P: &Slice{obj: o, len: len(bs), cap: len(bs)}}
		}
		var out []Value
		for i := 0; i < strLen(v); {
			r, n := w.decodeRune(v, i)
			out = append(out, r)
			i += n
		}
		o := w.newObj(len(out))
		copy(o.slots, out)
		return Value{P: &Slice{obj: o, len: len(out), cap: len(out)}}
	case from.kind == KSlice && to.kind == KString:
		if v.P == nil {
			return Value{}
		}
		s := v.P.(*Slice)
		if from.elem.w == 8 {
			if w.raceOn {
				for i := 0; i < s.len; i++ {
					w.race(s.obj, s.off+i, false)
				}
			}
			return bytesToStr(s.obj.slots[s.off : s.off+s.len])
		}
		r := Value{}
		for i := 0; i < s.len; i++ {
			r = catStr(r, w.runeToStr(s.obj.slots[s.off+i], from.elem))
		}
		return r
	case from.kind == KString && to.kind == KString:
		return v
	}
	// unsafe.Pointer <-> *T, uintptr
	return v
}

func (w *W) runeToStr(v Value, t *RType) Value {
	if v.P == nil {
		r := sext64(v.N, t.w)
		if !t.signed {
			r = int64(v.N)
		}
		if r < 0 || r > 0x10ffff {
			r = 0xfffd
		}
		return mkStr(string(rune(r)))
	}
	bs := w.encodeRune(v, t)
	return bytesToStr(bs)
}

// encodeRune gives the UTF-8 bytes of a symbolic rune, forking on its length.
func (w *W) encodeRune(v Value, t *RType) []Value {
	s := w.ts
	r := s.Resize(w.term(v, t.w), 32, t.signed)
	c := func(k uint64) *Term { return s.Const(32, k) }
	low := func(x *Term, or uint64, and uint64) Value {
		y := s.Bin(OpBOr, s.Bin(OpBAnd, x, c(and)), c(or))
		return tv(s.Resize(y, 8, false))
	}
	if w.branch(s.Ult(r, c(0x80))) {
		return []Value{tv(s.Resize(r, 8, false))}
	}
	sh := func(n uint64) *Term { return s.Bin(OpBLshr, r, c(n)) }
	if w.branch(s.Ult(r, c(0x800))) {
		return []Value{low(sh(6), 0xc0, 0x1f), low(r, 0x80, 0x3f)}
	}
	bad := s.Or(s.Ult(c(0x10ffff), r), s.And(s.Ule(c(0xd800), r), s.Ule(r, c(0xdfff))))
	if w.branch(bad) {
		return []Value{{N: 0xef}, {N: 0xbf}, {N: 0xbd}}
	}
	if w.branch(s.Ult(r, c(0x10000))) {
		return []Value{low(sh(12), 0xe0, 0x0f), low(sh(6), 0x80, 0x3f), low(r, 0x80, 0x3f)}
	}
	return []Value{low(sh(18), 0xf0, 0x07), low(sh(12), 0x80, 0x3f), low(sh(6), 0x80, 0x3f), low(r, 0x80, 0x3f)}
}

// decodeRune decodes the rune at byte i, forking on its encoding class.
func (w *W) decodeRune(v Value, i int) (Value, int) {
	n := strLen(v)
	b0 := strAt(v, i)
	if b0.P == nil && b0.N < 0x80 {
		return Value{N: b0.N}, 1
	}
	allc := true
	for k := i; k < n && k < i+4; k++ {
		if strAt(v, k).P != nil {
			allc = false
			break
		}
	}
	if allc {
		var buf [4]byte
		m := 0
		for k := i; k < n && k < i+4; k++ {
			buf[m] = byte(strAt(v, k).N)
			m++
		}
		r, sz := utf8.DecodeRune(buf[:m])
		return Value{N: uint64(uint32(r))}, sz
	}
	s := w.ts
	t0 := w.term(b0, 8)
	c8 := func(k uint64) *Term { return s.Const(8, k) }
	z := func(t *Term) *Term { return s.Resize(t, 32, false) }
	if w.branch(s.Ult(t0, c8(0x80))) {
		return tv(z(t0)), 1
	}
	bad := Value{N: 0xfffd}
	in := func(k int, lo, hi uint64) bool {
		if i+k >= n {
			return false
		}
		x := w.term(strAt(v, i+k), 8)
		return w.branch(s.And(s.Ule(c8(lo), x), s.Ule(x, c8(hi))))
	}
	bits := func(k int, m uint64, shl uint64) *Term {
		x := z(w.term(strAt(v, i+k), 8))
		return s.Bin(OpBShl, s.Bin(OpBAnd, x, s.Const(32, m)), s.Const(32, shl))
	}
	or := func(ts ...*Term) Value {
		r := ts[0]
		for _, t := range ts[1:] {
			r = s.Bin(OpBOr, r, t)
		}
		return tv(r)
	}
	switch {
	case in(0, 0xc2, 0xdf):
		if in(1, 0x80, 0xbf) {
			return or(bits(0, 0x1f, 6), bits(1, 0x3f, 0)), 2
		}
		return bad, 1
	case in(0, 0xe0, 0xef):
		lo, hi := uint64(0x80), uint64(0xbf)
		if w.branch(s.Eq(t0, c8(0xe0))) {
			lo = 0xa0
		} else if w.branch(s.Eq(t0, c8(0xed))) {
			hi = 0x9f
		}
		if in(1, lo, hi) && in(2, 0x80, 0xbf) {
			return or(bits(0, 0x0f, 12), bits(1, 0x3f, 6), bits(2, 0x3f, 0)), 3
		}
		return bad, 1
	case in(0, 0xf0, 0xf4):
		lo, hi := uint64(0x80), uint64(0xbf)
		if w.branch(s.Eq(t0, c8(0xf0))) {
			lo = 0x90
		} else if w.branch(s.Eq(t0, c8(0xf4))) {
			hi = 0x8f
		}
		if in(1, lo, hi) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) {
			return or(bits(0, 0x07, 18), bits(1, 0x3f, 12), bits(2, 0x3f, 6), bits(3, 0x3f, 0)), 4
		}
		return bad, 1
	}
	return bad, 1
}

// ---- memory ----

func (w *W) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

func (w *W) load(p Value, t *RType) Value {
	switch o := p.P.(type) {
	case *Obj:
		off := int(p.N)
		if w.raceOn {
			for i := 0; i < t.slots; i++ {
				w.race(o, off+i, false)
			}
		}
		if t.agg() {
			if off+t.slots > len(o.slots) {
				w.unsupported("load of %v beyond object %s", t, o.name)
			}
			v := make([]Value, t.slots)
			copy(v, o.slots[off:off+t.slots])
			return Value{P: &Agg{v: v}}
		}
		if off >= len(o.slots) {
			w.unsupported("load of %v beyond object %s", t, o.name)
		}
		return o.slots[off]
	case *SymPtr:
		if t.agg() {
			if t.slots == 0 {
				return zeroVal(t)
			}
			out := make([]Value, t.slots)
			for k := range out {
				v, ok := w.symLoad(o, k, t.slotType(k))
				if !ok {
					return w.load(w.concPtr(p), t)
				}
				out[k] = v
			}
			return Value{P: &Agg{v: out}}
		}
		v, ok := w.symLoad(o, 0, t)
		if !ok {
			return w.load(w.concPtr(p), t)
		}
		if tm, ok := v.P.(*Term); ok && tm.w != t.w {
			w.unsupported("width mismatch in symbolic load")
		}
		return v
	case nil:
		if p.N == 0 {
			w.nilDeref()
		}
	}
	w.unsupported("load through %T", p.P)
	return Value{}
}

// symLoad reads one slot at a symbolic index as a balanced ite tree.
func (w *W) symLoad(o *SymPtr, k int, st *RType) (Value, bool) {
	same := true
	var first Value
	for i := 0; i < o.n; i++ {
		v := o.obj.slots[o.base+i*o.stride+o.extra+k]
		if i == 0 {
			first = v
		} else if v != first {
			same = false
		}
	}
	if same {
		return first, true
	}
	if st.kind != KInt && st.kind != KBool {
		return Value{}, false
	}
	for i := 0; i < o.n; i++ {
		v := o.obj.slots[o.base+i*o.stride+o.extra+k]
		if v.P != nil {
			if t, ok := v.P.(*Term); !ok || t.w != st.w {
				return Value{}, false
			}
		}
	}
	return w.symLoadW(o, k, st.w)
}

// slotType is the type of the k-th slot of t.
func (t *RType) slotType(k int) *RType {
	switch t.kind {
	case KStruct:
		for _, f := range t.fields {
			if k >= f.off && k < f.off+f.t.slots {
				return f.t.slotType(k - f.off)
			}
		}
	case KArray:
		return t.elem.slotType(k % t.elem.slots)
	}
	return t
}

func (w *W) symLoadW(o *SymPtr, k int, width uint8) (Value, bool) {
	s := w.ts
	at := func(i int) *Term {
		v := o.obj.slots[o.base+i*o.stride+o.extra+k]
		if v.P == nil {
			return s.Const(width, v.N)
		}
		return v.P.(*Term)
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return at(lo)
		}
		mid := (lo + hi) / 2
		a, b := rec(lo, mid), rec(mid, hi)
		if a == b {
			return a
		}
		return s.Ite(s.Ult(o.idx, s.Const(64, uint64(mid))), a, b)
	}
	return tv(rec(0, o.n)), true
}

func (w *W) store(p Value, v Value, t *RType) {
	switch o := p.P.(type) {
	case *Obj:
		off := int(p.N)
		if w.raceOn {
			for i := 0; i < t.slots; i++ {
				w.race(o, off+i, true)
			}
		}
		if t.agg() {
			src := v.P.(*Agg).v
			if off+t.slots > len(o.slots) {
				w.unsupported("store of %v beyond object %s", t, o.name)
			}
			for i := range src {
				w.set(o, off+i, src[i])
			}
			return
		}
		if off >= len(o.slots) {
			w.unsupported("store of %v beyond object %s", t, o.name)
		}
		w.set(o, off, v)
	case *SymPtr:
		if t.agg() || (t.kind != KInt && t.kind != KBool) {
			w.store(w.concPtr(p), v, t)
			return
		}
		nv := w.term(v, t.w)
		for i := 0; i < o.n; i++ {
			off := o.base + i*o.stride + o.extra
			old := w.term(o.obj.slots[off], t.w)
			w.set(o.obj, off, tv(w.ts.Ite(w.ts.Eq(o.idx, w.ts.Const(64, uint64(i))), nv, old)))
		}
	case nil:
		w.nilDeref()
	default:
		w.unsupported("store through %T", p.P)
	}
}

// boundsIdx checks 0 <= i < n and returns a concrete index or a symbolic term.
func (w *W) boundsIdx(iv Value, it *RType, n int) (int, *Term) {
	if iv.P == nil {
		var i int64
		if it.signed {
			i = sext64(iv.N, it.w)
		} else {
			i = int64(iv.N)
			if i < 0 {
				i = math.MaxInt64
			}
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := w.ts.Resize(w.term(iv, it.w), 64, it.signed)
	ok := w.ts.Ult(t, w.ts.Const(64, uint64(n)))
	if !w.truth(tv(ok)) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if t.op == OpConst {
		return int(t.k), nil
	}
	return 0, t
}

const maxSymIdx = 300

func (w *W) indexAddr(base Value, iv Value, it *RType, elem *RType, arrN int) Value {
	var obj *Obj
	var off, n int
	if arrN >= 0 { // *array
		switch o := base.P.(type) {
		case *Obj:
			obj, off, n = o, int(base.N), arrN
		case *SymPtr:
			return w.indexAddr(w.concPtr(base), iv, it, elem, arrN)
		default:
			w.nilDeref()
		}
	} else {
		if base.P == nil {
			w.boundsIdx(iv, it, 0)
			w.unsupported("index of nil slice")
		}
		s, ok := base.P.(*Slice)
		if !ok {
			w.unsupported("index of %T", base.P)
		}
		obj, off, n = s.obj, s.off, s.len
	}
	i, t := w.boundsIdx(iv, it, n)
	if t == nil {
		return Value{P: obj, N: uint64(off + i*elem.slots)}
	}
	if n > maxSymIdx {
		i := int(w.concretize(t))
		return Value{P: obj, N: uint64(off + i*elem.slots)}
	}
	return Value{P: &SymPtr{obj: obj, base: off, stride: elem.slots, n: n, idx: t}}
}

func (w *W) fieldAddr(p Value, off int) Value {
	switch o := p.P.(type) {
	case *Obj:
		return Value{P: o, N: p.N + uint64(off)}
	case *SymPtr:
		c := *o
		c.extra += off
		return Value{P: &c}
	case nil:
		w.nilDeref()
	}
	w.unsupported("field of %T", p.P)
	return Value{}
}

// ---- maps ----

func (w *W) mapMut(m *MapV) {
	if w.raceOn {
		w.race(m.hdr, 0, true)
	}
	if m.base && w.baseMode == 0 && m.jr != w.pathGen {
		m.jr = w.pathGen
		old := m.d
		w.journalFn(func() { m.d = old; m.jr = 0 })
		m.d = old.clone()
	}
}

func (w *W) newMap(kt *RType) *MapV {
	w.nextObj++
	m := &MapV{d: newMapData(), kt: kt, base: w.baseMode > 0, id: w.nextObj}
	w.nextObj++
	m.hdr = &Obj{slots: make([]Value, 1), id: w.nextObj, name: "map"}
	return m
}

// find returns the entry index or -1, forking on symbolic keys.
func (w *W) mapFind(m *MapV, k Value) int {
	d := m.d
	mk, ok := keyOf(k, m.kt)
	if ok && d.nsym == 0 {
		if i, ok := d.idx[mk]; ok {
			return i
		}
		return -1
	}
	if ok {
		if i, ok := d.idx[mk]; ok {
			return i
		}
	}
	for i := range d.ents {
		if !d.ents[i].live {
			continue
		}
		if w.truth(w.eq(k, d.ents[i].k, m.kt)) {
			return i
		}
	}
	return -1
}

func (w *W) mapGet(m *MapV, k Value) (Value, bool) {
	if w.raceOn {
		w.race(m.hdr, 0, false)
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return Value{}, false
	}
	return m.d.ents[i].v, true
}

func (w *W) mapSet(m *MapV, k, v Value) {
	i := w.mapFind(m, k)
	w.mapMut(m)
	d := m.d
	if i >= 0 {
		d.ents[i].v = v
		return
	}
	d.ents = append(d.ents, ment{k: k, v: v, live: true})
	d.nlive++
	if mk, ok := keyOf(k, m.kt); ok {
		d.idx[mk] = len(d.ents) - 1
	} else {
		d.nsym++
	}
}

func (w *W) mapDel(m *MapV, k Value) {
	i := w.mapFind(m, k)
	w.mapMut(m)
	if i < 0 {
		return
	}
	d := m.d
	e := &d.ents[i]
	if mk, ok := keyOf(e.k, m.kt); ok {
		delete(d.idx, mk)
	} else {
		d.nsym--
	}
	e.live = false
	e.k, e.v = Value{}, Value{}
	d.nlive--
}

// ---- race detection (vector clocks) ----

func (w *W) race(o *Obj, off int, write bool) {
	g := w.cur
	if g == nil || o == nil || g.top != nil && g.top.fn.noRace {
		return
	}
	if o.shadow == nil {
		o.shadow = map[int]*shadowCell{}
		w.journalFn(func() { o.shadow = nil })
	}
	c := o.shadow[off]
	if c == nil {
		c = &shadowCell{wg: -1}
		o.shadow[off] = c
	}
	gid := g.id
	if gid < 0 {
		return
	}
	hb := func(og int, oc uint32) bool { return og == gid || og < len(g.vc) && g.vc[og] >= oc }
	if c.wg >= 0 && !hb(c.wg, c.wc) {
		w.violation("race", fmt.Sprintf("data race: %s here is not ordered after the write at %s", map[bool]string{true: "write", false: "read"}[write], c.wpc), g.stack())
	}
	if write {
		for og, oc := range c.rd {
			if oc > 0 && !hb(og, oc) {
				w.violation("race", fmt.Sprintf("data race: write here is not ordered after the read at %s", c.rpc[og]), g.stack())
			}
		}
		c.wg, c.wc = gid, g.vc[gid]
		c.wpc = g.where()
		c.rd = nil
	} else {
		for len(c.rd) <= gid {
			c.rd = append(c.rd, 0)
		}
		c.rd[gid] = g.vc[gid]
		if c.rpc == nil {
			c.rpc = map[int]string{}
		}
		c.rpc[gid] = g.where()
	}
}

// acquire joins a release clock into g; release publishes g's clock.
func (g *Gor) acquire(vc vclock) {
	for i, c := range vc {
		for len(g.vc) <= i {
			g.vc = append(g.vc, 0)
		}
		if c > g.vc[i] {
			g.vc[i] = c
		}
	}
}

func (g *Gor) release(old vclock) vclock {
	if g.id < 0 || g.id >= len(g.vc) {
		return old
	}
	n := make(vclock, max(len(old), len(g.vc)))
	copy(n, old)
	for i, c := range g.vc {
		if c > n[i] {
			n[i] = c
		}
	}
	g.vc[g.id]++
	return n
}
