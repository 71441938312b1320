package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
	"sync"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpBAdd
	OpBSub
	OpBMul
	OpBUdiv
	OpBSdiv
	OpBUrem
	OpBSrem
	OpBShl
	OpBLshr
	OpBAshr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpZext
	OpSext
	OpExtract // k = lo; width w
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpIte: "ite", OpBAdd: "bvadd", OpBSub: "bvsub", OpBMul: "bvmul", OpBUdiv: "bvudiv", OpBSdiv: "bvsdiv", OpBUrem: "bvurem",
	OpBSrem: "bvsrem", OpBShl: "bvshl", OpBLshr: "bvlshr", OpBAshr: "bvashr", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot",
}

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) term.
type Term struct {
	op      Op
	w       uint8 // 0 = bool
	k       uint64
	a, b, c *Term
	id      int32
	name    string // vars
	vix     int32  // variable index
	evGen   int64
	defGen  int64 // solver session in which the term is defined
	evVal   uint64
	vars    []int32 // lazily computed sorted variable set
	varsOK  bool
	dom     *[4]uint64 // exact solution set of a predicate over one byte
	umax    uint64     // upper bound of the unsigned value
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type TermStore struct {
	tab   map[tkey]*Term
	next  int32
	names map[string]*Term
	gen   int64
	ndef  int
	True  *Term
	False *Term
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: map[tkey]*Term{}, names: map[string]*Term{}}
	s.next = 1
	s.True = s.mk(OpConst, 0, 1, nil, nil, nil)
	s.False = s.mk(OpConst, 0, 0, nil, nil, nil)
	return s
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (s *TermStore) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := tkey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := s.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: s.next}
	s.next++
	switch op {
	case OpConst:
		t.umax = k
	case OpZext:
		t.umax = a.umax
	case OpIte:
		t.umax = max(b.umax, c.umax)
	case OpBAnd:
		t.umax = min(a.umax, b.umax)
	case OpBLshr:
		if b.op == OpConst && b.k < 64 {
			t.umax = a.umax >> b.k
		} else {
			t.umax = a.umax
		}
	case OpBUrem:
		if b.op == OpConst && b.k > 0 {
			t.umax = min(a.umax, b.k-1)
		} else {
			t.umax = mask(w)
		}
	case OpBAdd:
		hi, c := bits.Add64(a.umax, b.umax, 0)
		if c == 0 && hi <= mask(w) {
			t.umax = hi
		} else {
			t.umax = mask(w)
		}
	case OpBOr, OpBXor:
		n := bits.Len64(a.umax | b.umax)
		t.umax = mask(uint8(n))
		if n == 0 {
			t.umax = 0
		}
	case OpBMul:
		h, l := bits.Mul64(a.umax, b.umax)
		if h == 0 && l <= mask(w) {
			t.umax = l
		} else {
			t.umax = mask(w)
		}
	case OpBUdiv:
		if b.op == OpConst && b.k > 0 {
			t.umax = a.umax / b.k
		} else {
			t.umax = mask(w)
		}
	case OpBShl:
		t.umax = mask(w)
		if b.op == OpConst && b.k < 64 && bits.Len64(a.umax)+int(b.k) <= int(w) {
			t.umax = a.umax << b.k
		}
	default:
		t.umax = mask(w)
	}
	s.tab[key] = t
	return t
}

func (s *TermStore) Const(w uint8, k uint64) *Term {
	return s.mk(OpConst, w, k&mask(w), nil, nil, nil)
}
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}
func (s *TermStore) Var(name string, w uint8) *Term {
	if t, ok := s.names[name]; ok {
		if t.w == w {
			return t
		}
		name = fmt.Sprintf("%s!%d", name, w)
		if t, ok := s.names[name]; ok {
			return t
		}
	}
	t := &Term{op: OpVar, w: w, name: name, id: s.next, vix: varIndex(name, w), umax: mask(w)}
	s.next++
	s.names[name] = t
	t.vars = []int32{t.vix}
	t.varsOK = true
	return t
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func evalOp(op Op, w uint8, k uint64, aw uint8, a, b, c uint64) uint64 {
	b2u := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OpNot:
		return 1 - a
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OpSle:
		return b2u(sext64(a, aw) <= sext64(b, aw))
	case OpIte:
		if a != 0 {
			return b
		}
		return c
	case OpBAdd:
		return (a + b) & mask(w)
	case OpBSub:
		return (a - b) & mask(w)
	case OpBMul:
		return (a * b) & mask(w)
	case OpBUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpBUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpBSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return mask(w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OpBSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OpBShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OpBLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpBAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & mask(w)
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpBNot:
		return ^a & mask(w)
	case OpZext:
		return a
	case OpSext:
		return uint64(sext64(a, aw)) & mask(w)
	case OpExtract:
		return (a >> k) & mask(w)
	}
	panic("evalOp")
}

func (s *TermStore) Not(a *Term) *Term {
	switch {
	case a == s.True:
		return s.False
	case a == s.False:
		return s.True
	case a.op == OpNot:
		return a.a
	}
	return s.mk(OpNot, 0, 0, a, nil, nil)
}

func (s *TermStore) And(a, b *Term) *Term {
	switch {
	case a == s.False || b == s.False:
		return s.False
	case a == s.True:
		return b
	case b == s.True:
		return a
	case a == b:
		return a
	case a.op == OpNot && a.a == b, b.op == OpNot && b.a == a:
		return s.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpAnd, 0, 0, a, b, nil)
}

func (s *TermStore) Or(a, b *Term) *Term {
	switch {
	case a == s.True || b == s.True:
		return s.True
	case a == s.False:
		return b
	case b == s.False:
		return a
	case a == b:
		return a
	case a.op == OpNot && a.a == b, b.op == OpNot && b.a == a:
		return s.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpOr, 0, 0, a, b, nil)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	switch {
	case c == s.True:
		return a
	case c == s.False:
		return b
	case a == b:
		return a
	}
	if c.op == OpNot {
		return s.Ite(c.a, b, a)
	}
	if a.w == 0 {
		switch {
		case a == s.True:
			return s.Or(c, b)
		case a == s.False:
			return s.And(s.Not(c), b)
		case b == s.True:
			return s.Or(s.Not(c), a)
		case b == s.False:
			return s.And(c, a)
		}
	}
	return s.mk(OpIte, a.w, 0, c, a, b)
}

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.op == OpConst && b.op == OpConst {
		return s.Bool(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return s.Not(a)
		}
		if b.k > a.umax {
			return s.False
		}
		switch a.op {
		case OpBSub:
			if b.k == 0 {
				return s.Eq(a.a, a.b)
			}
		case OpZext:
			if b.k > mask(a.a.w) {
				return s.False
			}
			return s.Eq(a.a, s.Const(a.a.w, b.k))
		case OpSext:
			lo := b.k & mask(a.a.w)
			if uint64(sext64(lo, a.a.w))&mask(a.w) != b.k {
				return s.False
			}
			return s.Eq(a.a, s.Const(a.a.w, lo))
		case OpIte:
			if a.b.op == OpConst && a.c.op == OpConst {
				return s.Ite(a.a, s.Bool(a.b.k == b.k), s.Bool(a.c.k == b.k))
			}
			if a.b.op == OpConst || a.c.op == OpConst {
				return s.Ite(a.a, s.Eq(a.b, b), s.Eq(a.c, b))
			}
		case OpBAdd:
			if a.b.op == OpConst {
				return s.Eq(a.a, s.Const(a.w, b.k-a.b.k))
			}
		case OpBXor:
			if a.b.op == OpConst {
				return s.Eq(a.a, s.Const(a.w, b.k^a.b.k))
			}
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return s.Eq(a.a, b.a)
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, a, b, nil)
}

func (s *TermStore) Ult(a, b *Term) *Term {
	if a == b {
		return s.False
	}
	if a.op == OpConst && b.op == OpConst {
		return s.Bool(a.k < b.k)
	}
	if b.op == OpConst {
		if a.umax < b.k {
			return s.True
		}
		if b.k == 0 {
			return s.False
		}
		if a.op == OpZext {
			if b.k > mask(a.a.w) {
				return s.True
			}
			return s.Ult(a.a, s.Const(a.a.w, b.k))
		}
		if a.op == OpIte && (a.b.op == OpConst || a.c.op == OpConst) {
			return s.Ite(a.a, s.Ult(a.b, b), s.Ult(a.c, b))
		}
	}
	if a.op == OpConst {
		if b.umax <= a.k {
			return s.False
		}
		if b.op == OpZext {
			return s.Ult(s.Const(b.a.w, a.k), b.a)
		}
		if b.op == OpIte && (b.b.op == OpConst || b.c.op == OpConst) {
			return s.Ite(b.a, s.Ult(a, b.b), s.Ult(a, b.c))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return s.Ult(a.a, b.a)
	}
	return s.mk(OpUlt, 0, 0, a, b, nil)
}

func (s *TermStore) Ule(a, b *Term) *Term { return s.Not(s.Ult(b, a)) }

func (s *TermStore) Slt(a, b *Term) *Term {
	if a == b {
		return s.False
	}
	if a.op == OpConst && b.op == OpConst {
		return s.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	half := mask(a.w) >> 1
	if a.umax <= half && b.umax <= half {
		return s.Ult(a, b)
	}
	// a known non-negative and b a negative constant, and vice versa
	if b.op == OpConst && b.k > half && a.umax <= half {
		return s.False
	}
	if a.op == OpConst && a.k > half && b.umax <= half {
		return s.True
	}
	// the sign of a difference of small numbers
	if a.op == OpBSub && b.op == OpConst && b.k == 0 && a.a.umax <= half && a.b.umax <= half {
		return s.Ult(a.a, a.b)
	}
	if b.op == OpBSub && a.op == OpConst && a.k == 0 && b.a.umax <= half && b.b.umax <= half {
		return s.Ult(b.b, b.a)
	}
	return s.mk(OpSlt, 0, 0, a, b, nil)
}
func (s *TermStore) Sle(a, b *Term) *Term { return s.Not(s.Slt(b, a)) }

func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return s.Const(a.w, evalOp(op, a.w, 0, a.w, a.k, b.k, 0))
	}
	comm := false
	switch op {
	case OpBAdd, OpBMul, OpBAnd, OpBOr, OpBXor:
		comm = true
	}
	if comm && a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		switch op {
		case OpBAdd, OpBSub, OpBOr, OpBXor, OpBShl, OpBLshr, OpBAshr:
			if b.k == 0 {
				return a
			}
		case OpBMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return s.Bin(OpBShl, a, s.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(a.w) {
				return a
			}
			if b.k&(b.k+1) == 0 && a.umax <= b.k {
				return a
			}
		case OpBUdiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return s.Bin(OpBLshr, a, s.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OpBUrem:
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return s.Bin(OpBAnd, a, s.Const(a.w, b.k-1))
			}
			if b.k > a.umax {
				return a
			}
		}
		if op == OpBSub {
			return s.Bin(OpBAdd, a, s.Const(a.w, -b.k))
		}
		if op == OpBAdd && a.op == OpBAdd && a.b.op == OpConst {
			return s.Bin(OpBAdd, a.a, s.Const(a.w, a.b.k+b.k))
		}
		if op == OpBAnd && a.op == OpBAnd && a.b.op == OpConst {
			return s.Bin(OpBAnd, a.a, s.Const(a.w, a.b.k&b.k))
		}
		if op == OpBOr && a.op == OpBOr && a.b.op == OpConst {
			return s.Bin(OpBOr, a.a, s.Const(a.w, a.b.k|b.k))
		}
		// push into ite with constant arms
		if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
			return s.Ite(a.a, s.Bin(op, a.b, b), s.Bin(op, a.c, b))
		}
	}
	if a == b {
		switch op {
		case OpBSub, OpBXor:
			return s.Const(a.w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if op == OpBSdiv || op == OpBSrem {
		half := mask(a.w) >> 1
		if a.umax <= half && b.op == OpConst && b.k <= half && b.k > 0 {
			if op == OpBSdiv {
				return s.Bin(OpBUdiv, a, b)
			}
			return s.Bin(OpBUrem, a, b)
		}
	}
	if op == OpBAshr && a.umax <= mask(a.w)>>1 {
		return s.Bin(OpBLshr, a, b)
	}
	if comm && b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return s.mk(op, a.w, 0, a, b, nil)
}

func (s *TermStore) BNot(a *Term) *Term {
	if a.op == OpConst {
		return s.Const(a.w, ^a.k)
	}
	if a.op == OpBNot {
		return a.a
	}
	return s.mk(OpBNot, a.w, 0, a, nil, nil)
}

// Resize converts a bit-vector to width w (signed = sign extension).
func (s *TermStore) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if signed {
			return s.Const(w, uint64(sext64(a.k, a.w)))
		}
		return s.Const(w, a.k)
	}
	if w < a.w {
		if a.op == OpZext || a.op == OpSext {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return s.Resize(a.a, w, false)
			}
			return s.Resize(a.a, w, a.op == OpSext)
		}
		if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
			return s.Ite(a.a, s.Const(w, a.b.k), s.Const(w, a.c.k))
		}
		if a.op == OpBAnd && a.b.op == OpConst {
			return s.Bin(OpBAnd, s.Resize(a.a, w, false), s.Const(w, a.b.k))
		}
		return s.mk(OpExtract, w, 0, a, nil, nil)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return s.Ite(a.a, s.Resize(a.b, w, signed), s.Resize(a.c, w, signed))
	}
	if signed && a.umax > mask(a.w)>>1 {
		if a.op == OpSext {
			return s.Resize(a.a, w, true)
		}
		return s.mk(OpSext, w, 0, a, nil, nil)
	}
	if a.op == OpZext {
		a = a.a
		return s.Resize(a, w, false)
	}
	return s.mk(OpZext, w, 0, a, nil, nil)
}

// ---- evaluation ----

type Model struct {
	vals []uint64
}

func (m *Model) get(ix int32) uint64 {
	if m == nil || int(ix) >= len(m.vals) {
		return 0
	}
	return m.vals[ix]
}

func (s *TermStore) NewGen() int64 { s.gen++; return s.gen }

func (s *TermStore) eval(t *Term, m *Model, gen int64) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m.get(t.vix) & mask(t.w)
	}
	if t.evGen == gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpAnd:
		if s.eval(t.a, m, gen) == 0 {
			r = 0
		} else {
			r = s.eval(t.b, m, gen)
		}
	case OpOr:
		if s.eval(t.a, m, gen) != 0 {
			r = 1
		} else {
			r = s.eval(t.b, m, gen)
		}
	case OpIte:
		if s.eval(t.a, m, gen) != 0 {
			r = s.eval(t.b, m, gen)
		} else {
			r = s.eval(t.c, m, gen)
		}
	default:
		var a, b, c uint64
		var aw uint8
		a = s.eval(t.a, m, gen)
		aw = t.a.w
		if t.b != nil {
			b = s.eval(t.b, m, gen)
		}
		r = evalOp(t.op, t.w, t.k, aw, a, b, c)
	}
	t.evGen = gen
	t.evVal = r
	return r
}

func (s *TermStore) varsOf(t *Term) []int32 {
	if t.varsOK {
		return t.vars
	}
	var r []int32
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil && x.op != OpConst {
			r = mergeVars(r, s.varsOf(x))
		}
	}
	t.vars = r
	t.varsOK = true
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

// ---- printing ----

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (s *TermStore) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OpVar:
		return fmt.Sprintf("v%d", t.vix)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes define-funs for t's sub-terms not yet visited in this generation.
func (s *TermStore) emit(sb *strings.Builder, t *Term, gen int64) {
	if t.op == OpConst || t.defGen == gen {
		return
	}
	t.defGen = gen
	s.ndef++
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const v%d %s)\n", t.vix, sortOf(t))
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.emit(sb, x, gen)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortOf(t))
	switch t.op {
	case OpZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", uint64(t.w)+t.k-1, t.k, s.ref(t.a))
	default:
		sb.WriteString("(")
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

// variable indices are shared by all workers, so that models can travel
var varReg struct {
	mu sync.Mutex
	m  map[string]int32
	w  []uint8
}

func varIndex(name string, w uint8) int32 {
	// harnesses share names, but not what they are for
	name += "/" + strconv.Itoa(int(w))
	varReg.mu.Lock()
	defer varReg.mu.Unlock()
	if varReg.m == nil {
		varReg.m = map[string]int32{}
	}
	if i, ok := varReg.m[name]; ok {
		return i
	}
	i := int32(len(varReg.m))
	varReg.m[name] = i
	if w == 0 {
		w = 1
	}
	varReg.w = append(varReg.w, w)
	return i
}

// varWidth is the number of bits of a variable.
func varWidth(i int32) uint8 {
	varReg.mu.Lock()
	defer varReg.mu.Unlock()
	return varReg.w[i]
}

func varCount() int {
	varReg.mu.Lock()
	defer varReg.mu.Unlock()
	return len(varReg.m)
}

var domModel = sync.Pool{New: func() any { return &Model{} }}

// domain is the exact set of values of the single byte variable v that
// satisfy the predicate t.
func (s *TermStore) domain(t *Term, v int32, w uint8) *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	m := domModel.Get().(*Model)
	if n := varCount(); len(m.vals) < n {
		m.vals = make([]uint64, n+64)
	}
	var d [4]uint64
	for i := uint64(0); i < 1<<w; i++ {
		m.vals[v] = i
		if s.eval(t, m, s.NewGen()) != 0 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	domModel.Put(m)
	t.dom = &d
	return t.dom
}
