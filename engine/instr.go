package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func (f *Func) instr(in ssa.Instruction, cb *cblock) cfn {
	reg := -1
	if v, ok := in.(ssa.Value); ok {
		reg = f.regOf[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := rtype(in.Type().Underlying().(*types.Pointer).Elem())
		n := t.slots
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = Value{P: f.w.newObj(n)}
			return rNext
		}
	case *ssa.BinOp:
		x, y := f.operand(in.X), f.operand(in.Y)
		t := rtype(in.X.Type())
		bt := rtype(in.Y.Type())
		op := in.Op
		if t.kind == KInt {
			switch op {
			case token.ADD:
				m := mask(t.w)
				return func(g *Gor, f *Frame) int {
					a, b := f.get(&x), f.get(&y)
					if a.P == nil && b.P == nil {
						f.regs[reg] = Value{N: (a.N + b.N) & m}
					} else {
						f.regs[reg] = f.w.binop(op, a, b, t, bt)
					}
					return rNext
				}
			case token.EQL:
				return func(g *Gor, f *Frame) int {
					a, b := f.get(&x), f.get(&y)
					if a.P == nil && b.P == nil {
						f.regs[reg] = b2v(a.N == b.N)
					} else {
						f.regs[reg] = f.w.binop(op, a, b, t, bt)
					}
					return rNext
				}
			}
		}
		if t.kind == KIface && (op == token.EQL || op == token.NEQ) {
			// comparing with nil constants of other type kinds is uniform
		}
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = f.w.binop(op, f.get(&x), f.get(&y), t, bt)
			return rNext
		}
	case *ssa.UnOp:
		x := f.operand(in.X)
		switch in.Op {
		case token.MUL:
			t := rtype(in.Type())
			if t.agg() {
				return func(g *Gor, f *Frame) int {
					f.regs[reg] = f.w.load(f.get(&x), t)
					return rNext
				}
			}
			return func(g *Gor, f *Frame) int {
				p := f.get(&x)
				if o, ok := p.P.(*Obj); ok && !f.w.raceOn && int(p.N) < len(o.slots) {
					f.regs[reg] = o.slots[p.N]
				} else {
					f.regs[reg] = f.w.load(p, t)
				}
				return rNext
			}
		case token.NOT:
			return func(g *Gor, f *Frame) int {
				f.regs[reg] = f.w.not(f.get(&x))
				return rNext
			}
		case token.SUB:
			t := rtype(in.Type())
			return func(g *Gor, f *Frame) int {
				v := f.get(&x)
				if t.kind == KFloat {
					f.regs[reg] = mkF(-fval(f.w.concF(v), t), t)
				} else {
					f.regs[reg] = f.w.binop(token.SUB, Value{}, v, t, t)
				}
				return rNext
			}
		case token.XOR:
			t := rtype(in.Type())
			return func(g *Gor, f *Frame) int {
				f.regs[reg] = f.w.binop(token.XOR, Value{N: mask(t.w)}, f.get(&x), t, t)
				return rNext
			}
		case token.ARROW:
			et := rtype(in.X.Type().Underlying().(*types.Chan).Elem())
			commaOk := in.CommaOk
			return func(g *Gor, f *Frame) int {
				v, ok, st := g.chanRecv(f.get(&x), et)
				if st == stRetry {
					return stRetry
				}
				if commaOk {
					f.regs[reg] = Value{P: &Agg{v: []Value{v, b2v(ok)}}}
				} else {
					f.regs[reg] = v
				}
				return rYield
			}
		}
	case *ssa.ChangeType:
		x := f.operand(in.X)
		return func(g *Gor, f *Frame) int { f.regs[reg] = f.get(&x); return rNext }
	case *ssa.ChangeInterface:
		x := f.operand(in.X)
		return func(g *Gor, f *Frame) int { f.regs[reg] = f.get(&x); return rNext }
	case *ssa.Convert:
		x := f.operand(in.X)
		from, to := rtype(in.X.Type()), rtype(in.Type())
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = f.w.convert(f.get(&x), from, to)
			return rNext
		}
	case *ssa.MultiConvert:
		x := f.operand(in.X)
		from, to := rtype(in.X.Type()), rtype(in.Type())
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = f.w.convert(f.get(&x), from, to)
			return rNext
		}
	case *ssa.SliceToArrayPointer:
		x := f.operand(in.X)
		at := rtype(in.Type().Underlying().(*types.Pointer).Elem())
		return func(g *Gor, f *Frame) int {
			v := f.get(&x)
			if v.P == nil {
				if at.n > 0 {
					f.w.rtPanic("cannot convert slice to array pointer: length mismatch")
				}
				f.regs[reg] = Value{}
				return rNext
			}
			s := v.P.(*Slice)
			if s.len < at.n {
				f.w.rtPanic("cannot convert slice to array pointer: length mismatch")
			}
			f.regs[reg] = Value{P: s.obj, N: uint64(s.off)}
			return rNext
		}
	case *ssa.Extract:
		x := f.operand(in.Tuple)
		i := in.Index
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = f.get(&x).P.(*Agg).v[i]
			return rNext
		}
	case *ssa.Field:
		x := f.operand(in.X)
		st := rtype(in.X.Type())
		fd := st.fields[in.Field]
		return func(g *Gor, f *Frame) int {
			a := f.get(&x).P.(*Agg)
			if fd.t.agg() {
				f.regs[reg] = Value{P: &Agg{v: a.v[fd.off : fd.off+fd.t.slots]}}
			} else {
				f.regs[reg] = a.v[fd.off]
			}
			return rNext
		}
	case *ssa.FieldAddr:
		x := f.operand(in.X)
		st := rtype(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := st.fields[in.Field].off
		return func(g *Gor, f *Frame) int {
			p := f.get(&x)
			if o, ok := p.P.(*Obj); ok {
				f.regs[reg] = Value{P: o, N: p.N + uint64(off)}
			} else {
				f.regs[reg] = f.w.fieldAddr(p, off)
			}
			return rNext
		}
	case *ssa.Index:
		x, ix := f.operand(in.X), f.operand(in.Index)
		xt, it := rtype(in.X.Type()), rtype(in.Index.Type())
		if xt.kind == KString {
			return func(g *Gor, f *Frame) int {
				f.regs[reg] = f.w.strIndex(f.get(&x), f.get(&ix), it)
				return rNext
			}
		}
		et := xt.elem
		return func(g *Gor, f *Frame) int {
			a := f.get(&x).P.(*Agg)
			o := &Obj{slots: a.v}
			p := f.w.indexAddr(Value{P: o}, f.get(&ix), it, et, xt.n)
			sv := f.w.raceOn
			f.w.raceOn = false
			f.regs[reg] = f.w.load(p, et)
			f.w.raceOn = sv
			return rNext
		}
	case *ssa.IndexAddr:
		x, ix := f.operand(in.X), f.operand(in.Index)
		it := rtype(in.Index.Type())
		arrN := -1
		var et *RType
		switch u := in.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := rtype(u.Elem())
			arrN, et = at.n, at.elem
		default:
			et = rtype(in.X.Type()).elem
		}
		es := et.slots
		return func(g *Gor, f *Frame) int {
			b, i := f.get(&x), f.get(&ix)
			if arrN < 0 && i.P == nil {
				if s, ok := b.P.(*Slice); ok && i.N < uint64(s.len) {
					f.regs[reg] = Value{P: s.obj, N: uint64(s.off + int(i.N)*es)}
					return rNext
				}
			}
			f.regs[reg] = f.w.indexAddr(b, i, it, et, arrN)
			return rNext
		}
	case *ssa.Lookup:
		x, ix := f.operand(in.X), f.operand(in.Index)
		xt := rtype(in.X.Type())
		if xt.kind == KString {
			it := rtype(in.Index.Type())
			return func(g *Gor, f *Frame) int {
				f.regs[reg] = f.w.strIndex(f.get(&x), f.get(&ix), it)
				return rNext
			}
		}
		et := xt.elem
		commaOk := in.CommaOk
		return func(g *Gor, f *Frame) int {
			m := f.get(&x)
			var v Value
			ok := false
			if m.P != nil {
				v, ok = f.w.mapGet(m.P.(*MapV), f.get(&ix))
			}
			if !ok {
				v = zeroVal(et)
			}
			if commaOk {
				f.regs[reg] = Value{P: &Agg{v: []Value{v, b2v(ok)}}}
			} else {
				f.regs[reg] = v
			}
			return rNext
		}
	case *ssa.MakeMap:
		kt := rtype(in.Type()).key
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = Value{P: f.w.newMap(kt)}
			return rNext
		}
	case *ssa.MakeChan:
		sz := f.operand(in.Size)
		st := rtype(in.Size.Type())
		return func(g *Gor, f *Frame) int {
			n := f.w.concInt(f.get(&sz), st)
			if n < 0 {
				f.w.rtPanic("makechan: size out of range")
			}
			f.w.nextObj++
			c := &Chan{cap: int(n), id: f.w.nextObj}
			if f.w.baseMode > 0 {
				f.w.baseChans = append(f.w.baseChans, c)
			}
			f.regs[reg] = Value{P: c}
			return rNext
		}
	case *ssa.MakeSlice:
		ln, cp := f.operand(in.Len), f.operand(in.Cap)
		lt, ct := rtype(in.Len.Type()), rtype(in.Cap.Type())
		et := rtype(in.Type()).elem
		return func(g *Gor, f *Frame) int {
			w := f.w
			lv, cv := f.get(&ln), f.get(&cp)
			if t, ok := lv.P.(*Term); ok {
				neg := w.ts.Slt(w.ts.Resize(t, 64, lt.signed), w.ts.Const(64, 0))
				if w.truth(tv(neg)) {
					w.rtPanic("makeslice: len out of range")
				}
			}
			l, c := w.concInt(lv, lt), w.concInt(cv, ct)
			if l < 0 || c < l || c > 1<<40 {
				w.rtPanic("makeslice: len or cap out of range")
			}
			if c*int64(max(et.slots, 1)) > 1<<24 {
				panic(pathEnd{"bound", fmt.Sprintf("allocation of %d elements", c)})
			}
			f.regs[reg] = Value{P: &Slice{obj: w.newObj(int(c) * et.slots), len: int(l), cap: int(c)}}
			return rNext
		}
	case *ssa.MakeInterface:
		x := f.operand(in.X)
		t := rtype(in.X.Type())
		return func(g *Gor, f *Frame) int {
			f.regs[reg] = Value{P: &Iface{t: t, v: f.get(&x)}}
			return rNext
		}
	case *ssa.MakeClosure:
		fn := mach.fnOf(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, f.operand(b))
		}
		return func(g *Gor, f *Frame) int {
			vs := make([]Value, len(bs))
			for i := range bs {
				vs[i] = f.get(&bs[i])
			}
			f.regs[reg] = Value{P: &Closure{fn: fn, binds: vs}}
			return rNext
		}
	case *ssa.Store:
		a, v := f.operand(in.Addr), f.operand(in.Val)
		t := rtype(in.Val.Type())
		return func(g *Gor, f *Frame) int {
			f.w.store(f.get(&a), f.get(&v), t)
			return rNext
		}
	case *ssa.MapUpdate:
		m, k, v := f.operand(in.Map), f.operand(in.Key), f.operand(in.Value)
		return func(g *Gor, f *Frame) int {
			mv := f.get(&m)
			if mv.P == nil {
				panic(targetPanic{f.w.ex.runtimeError("assignment to entry in nil map"), true})
			}
			f.w.mapSet(mv.P.(*MapV), f.get(&k), f.get(&v))
			return rNext
		}
	case *ssa.Slice:
		return f.sliceInstr(in, reg)
	case *ssa.TypeAssert:
		return f.typeAssert(in, reg)
	case *ssa.Range:
		x := f.operand(in.X)
		isStr := rtype(in.X.Type()).kind == KString
		return func(g *Gor, f *Frame) int {
			v := f.get(&x)
			it := &Iter{}
			if isStr {
				it.str = v
			} else if v.P != nil {
				it.m = v.P.(*MapV)
				if f.w.raceOn {
					f.w.race(it.m.hdr, 0, false)
				}
				if f.w.mapOrder > 0 && f.w.baseMode == 0 && f.fn.ordered && it.m.d.nlive > 1 && it.m.d.nlive <= f.w.mapOrder {
					it.ord = true
					for i := range it.m.d.ents {
						if it.m.d.ents[i].live {
							it.perm = append(it.perm, i)
						}
					}
				}
			}
			f.regs[reg] = Value{P: it}
			return rNext
		}
	case *ssa.Next:
		x := f.operand(in.Iter)
		tup := rtype(in.Type())
		isStr := in.IsString
		return func(g *Gor, f *Frame) int {
			it := f.get(&x).P.(*Iter)
			if isStr {
				if it.pos >= strLen(it.str) {
					f.regs[reg] = Value{P: &Agg{v: []Value{{}, {}, {}}}}
					return rNext
				}
				p := it.pos
				r, n := f.w.decodeRune(it.str, p)
				// the iterator must be immutable with respect to registers
				ni := *it
				_ = ni
				it.pos += n
				f.regs[reg] = Value{P: &Agg{v: []Value{{N: 1}, {N: uint64(p)}, r}}}
				return rNext
			}
			var k, v Value
			ok := false
			if it.m != nil {
				d := it.m.d
				if it.ord {
					for len(it.perm) > 0 {
						c := f.w.choice(len(it.perm), "maporder")
						e := it.perm[c]
						it.perm = append(append([]int{}, it.perm[:c]...), it.perm[c+1:]...)
						if e < len(d.ents) && d.ents[e].live {
							k, v, ok = d.ents[e].k, d.ents[e].v, true
							break
						}
					}
				} else {
					for it.i < len(d.ents) && !d.ents[it.i].live {
						it.i++
					}
					if it.i < len(d.ents) {
						k, v, ok = d.ents[it.i].k, d.ents[it.i].v, true
						it.i++
					}
				}
			}
			if !ok {
				k, v = zeroVal(tup.fields[1].t), zeroVal(tup.fields[2].t)
			}
			f.regs[reg] = Value{P: &Agg{v: []Value{b2v(ok), k, v}}}
			return rNext
		}
	case *ssa.Jump:
		t := cb.succs[0]
		return func(g *Gor, f *Frame) int { f.jump(t, cb); return rFrame }
	case *ssa.If:
		c := f.operand(in.Cond)
		fn := f
		return func(g *Gor, f *Frame) int {
			v := f.get(&c)
			var take bool
			if v.P == nil {
				take = v.N != 0
			} else {
				t := v.P.(*Term)
				if f.w.tryMerge(g, f, fn, cb, t) {
					return rFrame
				}
				take = f.w.branch(t)
			}
			if take {
				f.jump(cb.succs[0], cb)
			} else {
				f.jump(cb.succs[1], cb)
			}
			return rFrame
		}
	case *ssa.Return:
		var rs []opnd
		for _, r := range in.Results {
			rs = append(rs, f.operand(r))
		}
		switch len(rs) {
		case 0:
			return func(g *Gor, f *Frame) int { g.ret(f, Value{}); return rFrame }
		case 1:
			r := rs[0]
			return func(g *Gor, f *Frame) int { g.ret(f, f.get(&r)); return rFrame }
		}
		return func(g *Gor, f *Frame) int {
			a := &Agg{v: make([]Value, len(rs))}
			for i := range rs {
				a.v[i] = f.get(&rs[i])
			}
			g.ret(f, Value{P: a})
			return rFrame
		}
	case *ssa.RunDefers:
		return func(g *Gor, f *Frame) int {
			n := len(f.defers)
			if n == 0 {
				return rNext
			}
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc--
			if d.bi == nil {
				d.fn.prep()
				fn := d.fn
				for fn.replace != nil {
					fn = fn.replace
				}
				if fn.intr != nil {
					_, st := fn.intr(g, fn, d.args)
					if st == stBlock {
						f.defers = append(f.defers, d)
						f.pc++
						return stRetry
					}
					return rYield
				}
			}
			g.runDeferred(f, d)
			return rFrame
		}
	case *ssa.Panic:
		x := f.operand(in.X)
		return func(g *Gor, f *Frame) int {
			panic(targetPanic{f.get(&x), false})
		}
	case *ssa.Go:
		return f.goOrDefer(&in.Call, true)
	case *ssa.Defer:
		return f.goOrDefer(&in.Call, false)
	case *ssa.Call:
		return f.callInstr(&in.Call, reg, rtype(in.Type()))
	case *ssa.Send:
		c, x := f.operand(in.Chan), f.operand(in.X)
		return func(g *Gor, f *Frame) int {
			return g.chanSend(f.get(&c), f.get(&x))
		}
	case *ssa.Select:
		return f.selectInstr(in, reg)
	}
	panic(fmt.Sprintf("instr %T %v", in, in))
}

func (w *W) strIndex(s, iv Value, it *RType) Value {
	i, t := w.boundsIdx(iv, it, strLen(s))
	if t == nil {
		return strAt(s, i)
	}
	n := strLen(s)
	if n > maxSymIdx {
		return strAt(s, int(w.concretize(t)))
	}
	o := &Obj{slots: strBytes(s)}
	v, _ := w.symLoadW(&SymPtr{obj: o, stride: 1, n: n, idx: t}, 0, 8)
	return v
}

func (f *Func) sliceInstr(in *ssa.Slice, reg int) cfn {
	x := f.operand(in.X)
	var lo, hi, mx opnd
	var lt, ht, mt *RType
	if in.Low != nil {
		lo, lt = f.operand(in.Low), rtype(in.Low.Type())
	}
	if in.High != nil {
		hi, ht = f.operand(in.High), rtype(in.High.Type())
	}
	if in.Max != nil {
		mx, mt = f.operand(in.Max), rtype(in.Max.Type())
	}
	xt := in.X.Type().Underlying()
	if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return func(g *Gor, f *Frame) int {
			w := f.w
			s := f.get(&x)
			n := strLen(s)
			l, h := int64(0), int64(n)
			if lt != nil {
				l = w.concBound(f.get(&lo), lt, n)
			}
			if ht != nil {
				h = w.concBound(f.get(&hi), ht, n)
			}
			if h < 0 || h > int64(n) {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			f.regs[reg] = subStr(s, int(l), int(h))
			return rNext
		}
	}
	arrN := -1
	var et *RType
	if p, ok := xt.(*types.Pointer); ok {
		at := rtype(p.Elem())
		arrN, et = at.n, at.elem
	} else {
		et = rtype(in.X.Type()).elem
	}
	return func(g *Gor, f *Frame) int {
		w := f.w
		v := f.get(&x)
		var obj *Obj
		off, ln, cp := 0, 0, 0
		if arrN >= 0 {
			v = w.concPtr(v)
			o, ok := v.P.(*Obj)
			if !ok {
				w.nilDeref()
			}
			obj, off, ln, cp = o, int(v.N), arrN, arrN
		} else if v.P != nil {
			s := v.P.(*Slice)
			obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		}
		l, h, m := int64(0), int64(ln), int64(cp)
		if mt != nil {
			m = w.concBound(f.get(&mx), mt, cp)
			if m < 0 || m > int64(cp) {
				w.rtPanic("slice bounds out of range")
			}
		}
		if lt != nil {
			l = w.concBound(f.get(&lo), lt, cp)
		}
		if ht != nil {
			h = w.concBound(f.get(&hi), ht, cp)
		}
		if h < 0 || h > m {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
		}
		if l < 0 || l > h {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if obj == nil {
			f.regs[reg] = Value{}
			return rNext
		}
		f.regs[reg] = Value{P: &Slice{obj: obj, off: off + int(l)*et.slots, len: int(h - l), cap: int(m - l)}}
		return rNext
	}
}

// concBound concretises a slice bound; out-of-range values are all represented
// by a single one so that the fork stays finite.
func (w *W) concBound(v Value, t *RType, n int) int64 {
	if v.P == nil {
		if t.signed {
			return sext64(v.N, t.w)
		}
		if v.N > 1<<62 {
			return 1 << 62
		}
		return int64(v.N)
	}
	x := w.ts.Resize(w.term(v, t.w), 64, t.signed)
	if !w.truth(tv(w.ts.Ule(x, w.ts.Const(64, uint64(n))))) {
		return int64(n) + 1
	}
	return int64(w.concretize(x))
}

// ---- type assertions ----

func implements(t *RType, it *RType) bool {
	if v, ok := t.impl.Load(it); ok {
		return v.(bool)
	}
	tt.mu.Lock()
	r := types.Implements(t.T, it.T.Underlying().(*types.Interface))
	tt.mu.Unlock()
	t.impl.Store(it, r)
	return r
}

func (f *Func) typeAssert(in *ssa.TypeAssert, reg int) cfn {
	x := f.operand(in.X)
	at := rtype(in.AssertedType)
	toIface := at.kind == KIface
	commaOk := in.CommaOk
	return func(g *Gor, f *Frame) int {
		v := f.get(&x)
		ok := false
		var res Value
		if v.P != nil {
			i := v.P.(*Iface)
			if toIface {
				if implements(i.t, at) {
					ok, res = true, v
				}
			} else if i.t == at {
				ok, res = true, i.v
			}
		}
		if !ok {
			if !commaOk {
				dyn := "nil"
				if v.P != nil {
					dyn = v.P.(*Iface).t.String()
				}
				panic(targetPanic{f.w.ex.runtimeError("interface conversion: interface is " + dyn + ", not " + at.String()), true})
			}
			res = zeroVal(at)
		}
		if commaOk {
			f.regs[reg] = Value{P: &Agg{v: []Value{res, b2v(ok)}}}
		} else {
			f.regs[reg] = res
		}
		return rNext
	}
}

// ---- calls ----

func (w *W) lookupMethod(t *RType, pkg *types.Package, name string) *Func {
	id := types.Id(pkg, name)
	if v, ok := t.meths.Load(id); ok {
		f, _ := v.(*Func)
		return f
	}
	tt.mu.Lock()
	sel := mach.l.Prog.MethodSets.MethodSet(t.T).Lookup(pkg, name)
	var fn *ssa.Function
	if sel != nil {
		fn = mach.l.Prog.MethodValue(sel)
	}
	tt.mu.Unlock()
	if fn == nil {
		t.meths.Store(id, (*Func)(nil))
		return nil
	}
	f := mach.fnOf(fn)
	t.meths.Store(id, f)
	return f
}

type icache struct {
	t *RType
	f *Func
}

func (f *Func) callInstr(c *ssa.CallCommon, reg int, rt *RType) cfn {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, f.operand(a))
	}
	na := len(args)
	if c.IsInvoke() {
		x := f.operand(c.Value)
		name := c.Method.Name()
		pkg := c.Method.Pkg()
		var ic atomic.Pointer[icache]
		return func(g *Gor, f *Frame) int {
			v := f.get(&x)
			if v.P == nil {
				f.w.nilDeref()
			}
			i := v.P.(*Iface)
			var m *Func
			if k := ic.Load(); k != nil && k.t == i.t {
				m = k.f
			} else {
				m = f.w.lookupMethod(i.t, pkg, name)
				if m == nil {
					f.w.unsupported("method %s not found on %v", name, i.t)
				}
				ic.Store(&icache{i.t, m})
			}
			var buf [10]Value
			av := append(buf[:0], i.v)
			for k := range args {
				av = append(av, f.get(&args[k]))
			}
			if na >= 9 || m.intr != nil {
				av = append([]Value(nil), av...)
			}
			return g.call(m, av, nil, reg, nil)
		}
	}
	switch callee := c.Value.(type) {
	case *ssa.Builtin:
		return f.builtin(callee, c, args, reg, rt)
	case *ssa.Function:
		fn := mach.fnOf(callee)
		// skip calls of other packages' initialisers: packages initialise lazily
		if callee.Name() == "init" && callee.Synthetic != "" && f.fn.Name() == "init" && callee.Pkg != f.fn.Pkg {
			return func(g *Gor, f *Frame) int { return rNext }
		}
		return func(g *Gor, f *Frame) int {
			fn.prep()
			if fn.intr != nil || fn.replace != nil {
				av := make([]Value, na)
				for k := range args {
					av[k] = f.get(&args[k])
				}
				return g.call(fn, av, nil, reg, nil)
			}
			w := f.w
			if fn.noBody != "" {
				w.unsupported("no body: %s", fn.noBody)
			}
			if fn.order != nil && reg >= 0 {
				// summarise pure functions on symbolic arguments
				for k := range args {
					if v := f.get(&args[k]); v.P != nil {
						if _, ok := v.P.(*Term); ok {
							av := make([]Value, na)
							for k := range args {
								av[k] = f.get(&args[k])
							}
							if r, ok := w.evalPure(fn, av, 0); ok {
								w.fnCount[fn]++
								f.regs[reg] = r
								return rNext
							}
							break
						}
					}
				}
			}
			nf := w.newFrame(fn)
			for k := range args {
				nf.regs[k] = f.get(&args[k])
			}
			nf.caller = f
			nf.dst = reg
			nf.blk = fn.blocks[0]
			g.top = nf
			w.fnCount[fn]++
			return rFrame
		}
	}
	x := f.operand(c.Value)
	return func(g *Gor, f *Frame) int {
		v := f.get(&x)
		if v.P == nil {
			f.w.nilDeref()
		}
		cl := v.P.(*Closure)
		var av []Value
		var buf [10]Value
		cl.fn.prep()
		if cl.fn.intr != nil || cl.fn.replace != nil || na > 10 {
			av = make([]Value, 0, na)
		} else {
			av = buf[:0]
		}
		for k := range args {
			av = append(av, f.get(&args[k]))
		}
		return g.call(cl.fn, av, cl.binds, reg, nil)
	}
}

func (f *Func) goOrDefer(c *ssa.CallCommon, isGo bool) cfn {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, f.operand(a))
	}
	var bi cfn
	x := opnd{}
	var breg int
	if b, ok := c.Value.(*ssa.Builtin); ok {
		breg = -1
		var rt *RType
		if c.Signature().Results().Len() == 1 {
			rt = rtype(c.Signature().Results().At(0).Type())
		}
		// evaluate a deferred builtin on saved operands
		name := b.Name()
		ats := make([]*RType, len(c.Args))
		for i := range c.Args {
			ats[i] = rtype(c.Args[i].Type())
		}
		_ = rt
		_ = bi
		_ = breg
		return func(g *Gor, f *Frame) int {
			av := make([]Value, len(args))
			for k := range args {
				av[k] = f.get(&args[k])
			}
			if isGo {
				f.w.unsupported("go builtin")
			}
			f.defers = append(f.defers, deferred{args: av, bi: func(g *Gor, f *Frame, a []Value) {
				switch name {
				case "close":
					g.chanClose(a[0])
				case "delete":
					if a[0].P != nil {
						f.w.mapDel(a[0].P.(*MapV), a[1])
					}
				case "recover":
					g.doRecover(f)
				case "panic":
					panic(targetPanic{a[0], false})
				case "print", "println":
				default:
					f.w.unsupported("deferred builtin %s", name)
				}
			}})
			return rNext
		}
	}
	invoke := c.IsInvoke()
	var mname string
	var mpkg *types.Package
	if invoke {
		mname, mpkg = c.Method.Name(), c.Method.Pkg()
	}
	x = f.operand(c.Value)
	return func(g *Gor, f *Frame) int {
		v := f.get(&x)
		var fn *Func
		var binds []Value
		var av []Value
		if invoke {
			if v.P == nil {
				f.w.nilDeref()
			}
			i := v.P.(*Iface)
			fn = f.w.lookupMethod(i.t, mpkg, mname)
			av = append(av, i.v)
		} else {
			if v.P == nil {
				f.w.nilDeref()
			}
			cl := v.P.(*Closure)
			fn, binds = cl.fn, cl.binds
		}
		for k := range args {
			av = append(av, f.get(&args[k]))
		}
		if isGo {
			fn.prep()
			f.w.spawn(fn, av, binds)
			return rYield
		}
		f.defers = append(f.defers, deferred{fn: fn, args: av, sig: binds})
		return rNext
	}
}

func (g *Gor) doRecover(f *Frame) Value {
	// f is the frame calling recover: it must be a deferred call of a panicking frame
	p := f.deferOf
	if p == nil || p.panicking == nil || p.panicking.recovered {
		return Value{}
	}
	rec := p.panicking
	if rec.goexit {
		return Value{}
	}
	rec.recovered = true
	return rec.val
}

func (f *Func) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []opnd, reg int, rt *RType) cfn {
	at := func(i int) *RType { return rtype(c.Args[i].Type()) }
	set := func(fn func(w *W, f *Frame) Value) cfn {
		return func(g *Gor, f *Frame) int {
			v := fn(f.w, f)
			if reg >= 0 {
				f.regs[reg] = v
			}
			return rNext
		}
	}
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		k := at(0).kind
		if k == KPtr { // pointer to array
			n := rtype(at(0).T.Underlying().(*types.Pointer).Elem()).n
			return set(func(w *W, f *Frame) Value { return Value{N: uint64(n)} })
		}
		n := at(0).n
		return set(func(w *W, f *Frame) Value {
			v := f.get(&args[0])
			switch k {
			case KString:
				return Value{N: uint64(strLen(v))}
			case KArray:
				return Value{N: uint64(n)}
			}
			if v.P == nil {
				return Value{}
			}
			switch p := v.P.(type) {
			case *Slice:
				if isCap {
					return Value{N: uint64(p.cap)}
				}
				return Value{N: uint64(p.len)}
			case *MapV:
				if w.raceOn {
					w.race(p.hdr, 0, false)
				}
				return Value{N: uint64(p.d.nlive)}
			case *Chan:
				if isCap {
					return Value{N: uint64(p.cap)}
				}
				return Value{N: uint64(len(p.buf))}
			}
			w.unsupported("len of %T", v.P)
			return Value{}
		})
	case "append":
		et := at(0).elem
		if len(args) == 1 {
			return set(func(w *W, f *Frame) Value { return f.get(&args[0]) })
		}
		strArg := at(1).kind == KString
		return set(func(w *W, f *Frame) Value {
			return w.appendSlice(f.get(&args[0]), f.get(&args[1]), et, strArg)
		})
	case "copy":
		et := at(0).elem
		strArg := at(1).kind == KString
		return set(func(w *W, f *Frame) Value {
			d, s := f.get(&args[0]), f.get(&args[1])
			if d.P == nil || s.P == nil {
				return Value{}
			}
			ds := d.P.(*Slice)
			var src []Value
			n := 0
			if strArg {
				src = strBytes(s)
				n = len(src)
			} else {
				ss := s.P.(*Slice)
				n = ss.len
				src = ss.obj.slots[ss.off : ss.off+min(ss.len, ds.len)*et.slots]
				if w.raceOn {
					for i := range src {
						w.race(ss.obj, ss.off+i, false)
					}
				}
			}
			n = min(n, ds.len)
			m := n * et.slots
			tmp := make([]Value, m)
			copy(tmp, src[:m])
			for i := range tmp {
				if w.raceOn {
					w.race(ds.obj, ds.off+i, true)
				}
				w.set(ds.obj, ds.off+i, tmp[i])
			}
			return Value{N: uint64(n)}
		})
	case "delete":
		return set(func(w *W, f *Frame) Value {
			m := f.get(&args[0])
			if m.P != nil {
				w.mapDel(m.P.(*MapV), f.get(&args[1]))
			}
			return Value{}
		})
	case "clear":
		k := at(0).kind
		et := at(0).elem
		return set(func(w *W, f *Frame) Value {
			v := f.get(&args[0])
			if v.P == nil {
				return Value{}
			}
			if k == KMap {
				m := v.P.(*MapV)
				w.mapMut(m)
				m.d = newMapData()
				return Value{}
			}
			s := v.P.(*Slice)
			for i := 0; i < s.len*et.slots; i++ {
				w.set(s.obj, s.off+i, Value{})
			}
			return Value{}
		})
	case "close":
		return func(g *Gor, f *Frame) int {
			g.chanClose(f.get(&args[0]))
			return rYield
		}
	case "panic":
		return func(g *Gor, f *Frame) int { panic(targetPanic{f.get(&args[0]), false}) }
	case "print", "println":
		return func(g *Gor, f *Frame) int { return rNext }
	case "recover":
		return func(g *Gor, f *Frame) int {
			v := g.doRecover(f)
			if reg >= 0 {
				f.regs[reg] = v
			}
			return rNext
		}
	case "min", "max":
		t := at(0)
		isMin := b.Name() == "min"
		return set(func(w *W, f *Frame) Value {
			r := f.get(&args[0])
			for i := 1; i < len(args); i++ {
				y := f.get(&args[i])
				if t.kind == KFloat {
					a, b := fval(w.concF(r), t), fval(w.concF(y), t)
					if isMin {
						r = mkF(min(a, b), t)
					} else {
						r = mkF(max(a, b), t)
					}
					continue
				}
				op := token.LSS
				if !isMin {
					op = token.GTR
				}
				c := w.binop(op, y, r, t, t)
				if c.P == nil {
					if c.N != 0 {
						r = y
					}
				} else if t.kind == KInt {
					r = tv(w.ts.Ite(c.P.(*Term), w.term(y, t.w), w.term(r, t.w)))
				} else if w.truth(c) {
					r = y
				}
			}
			return r
		})
	case "ssa:wrapnilchk":
		return set(func(w *W, f *Frame) Value {
			v := f.get(&args[0])
			if v.P == nil {
				w.nilDeref()
			}
			return v
		})
	case "String": // unsafe.String(ptr, len)
		lt := at(1)
		return set(func(w *W, f *Frame) Value {
			p := f.get(&args[0])
			n := int(w.concInt(f.get(&args[1]), lt))
			if n == 0 {
				return Value{}
			}
			if st, ok := p.P.(*Str); ok {
				return Value{P: st, N: p.N<<32 | uint64(n)}
			}
			o, ok := p.P.(*Obj)
			if !ok {
				w.unsupported("unsafe.String of %T", p.P)
			}
			return bytesToStr(o.slots[p.N : int(p.N)+n])
		})
	case "StringData":
		return set(func(w *W, f *Frame) Value {
			s := f.get(&args[0])
			if s.P == nil {
				return Value{}
			}
			return Value{P: s.P, N: uint64(strOff(s))}
		})
	case "SliceData":
		return set(func(w *W, f *Frame) Value {
			s := f.get(&args[0])
			if s.P == nil {
				return Value{}
			}
			sl := s.P.(*Slice)
			return Value{P: sl.obj, N: uint64(sl.off)}
		})
	case "Slice": // unsafe.Slice
		lt := at(1)
		et := rtype(at(0).T.Underlying().(*types.Pointer).Elem())
		return set(func(w *W, f *Frame) Value {
			p := f.get(&args[0])
			n := int(w.concInt(f.get(&args[1]), lt))
			if p.P == nil {
				return Value{}
			}
			if st, ok := p.P.(*Str); ok {
				bs := strBytes(Value{P: st, N: p.N<<32 | uint64(n)})
				o := w.newObj(n)
				copy(o.slots, bs)
				return Value{P: &Slice{obj: o, len: n, cap: n}}
			}
			o := p.P.(*Obj)
			if int(p.N)+n*et.slots > len(o.slots) {
				w.unsupported("unsafe.Slice beyond object")
			}
			return Value{P: &Slice{obj: o, off: int(p.N), len: n, cap: n}}
		})
	case "Add":
		return set(func(w *W, f *Frame) Value {
			if n := f.get(&args[1]); n.P == nil && n.N == 0 {
				return f.get(&args[0])
			}
			w.unsupported("unsafe.Add")
			return Value{}
		})
	}
	name := b.Name()
	return func(g *Gor, f *Frame) int { f.w.unsupported("builtin %s", name); return 0 }
}

func (w *W) appendSlice(a, b Value, et *RType, strArg bool) Value {
	var src []Value
	n := 0
	if strArg {
		src = strBytes(b)
		n = len(src)
	} else if b.P != nil {
		s := b.P.(*Slice)
		n = s.len
		src = s.obj.slots[s.off : s.off+s.len*et.slots]
		if w.raceOn {
			for i := range src {
				w.race(s.obj, s.off+i, false)
			}
		}
	}
	if n == 0 {
		return a
	}
	es := et.slots
	if a.P == nil {
		c := n
		o := w.newObj(c * es)
		copy(o.slots, src)
		return Value{P: &Slice{obj: o, len: n, cap: c}}
	}
	s := a.P.(*Slice)
	if s.len+n <= s.cap {
		tmp := src
		for i := range tmp {
			if w.raceOn {
				w.race(s.obj, s.off+s.len*es+i, true)
			}
			w.set(s.obj, s.off+s.len*es+i, tmp[i])
		}
		return Value{P: &Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap}}
	}
	if w.raceOn {
		for i := 0; i < s.len*es; i++ {
			w.race(s.obj, s.off+i, false)
		}
	}
	c := s.cap * 2
	if s.cap > 256 {
		c = s.cap + s.cap/4 + 192
	}
	if c < s.len+n {
		c = s.len + n
	}
	if c*max(es, 1) > 1<<24 {
		panic(pathEnd{"bound", "slice too large"})
	}
	o := w.newObj(c * es)
	copy(o.slots, s.obj.slots[s.off:s.off+s.len*es])
	copy(o.slots[s.len*es:], src)
	return Value{P: &Slice{obj: o, len: s.len + n, cap: c}}
}

// ---- channels ----

func (g *Gor) chanSend(cv, v Value) int {
	w := g.w
	if cv.P == nil {
		g.wait, g.waitOn = func() bool { return false }, "send on nil channel"
		return stRetry
	}
	c := cv.P.(*Chan)
	if sw, ok := g.aux.(*sendWait); ok && sw != nil {
		// second half of an unbuffered send
		if sw.done {
			g.aux = nil
			g.acquire(sw.vc)
			return rYield
		}
		if c.closed {
			g.aux = nil
			panic(targetPanic{w.ex.runtimeError("send on closed channel"), false})
		}
		g.wait, g.waitOn = func() bool { return sw.done || c.closed }, "chan send"
		return stRetry
	}
	if c.closed {
		panic(targetPanic{w.ex.runtimeError("send on closed channel"), false})
	}
	if c.cap > 0 {
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
			c.vcs = append(c.vcs, g.release(nil))
			return rYield
		}
		g.wait, g.waitOn = func() bool { return len(c.buf) < c.cap || c.closed }, "chan send"
		return stRetry
	}
	sw := &sendWait{v: v, g: g, vc: g.release(nil)}
	c.sendq = append(c.sendq, sw)
	g.aux = sw
	g.wait, g.waitOn = func() bool { return sw.done || c.closed }, "chan send"
	return stRetry
}

// tryRecv takes a value if one is available.
func (g *Gor) tryRecv(c *Chan, et *RType) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		g.acquire(c.vcs[0])
		c.vcs = append([]vclock(nil), c.vcs[1:]...)
		return v, true, true
	}
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = append([]*sendWait(nil), c.sendq[1:]...)
		s.done = true
		g.acquire(s.vc)
		s.vc = g.release(nil)
		return s.v, true, true
	}
	if c.closed {
		g.acquire(c.cvc)
		return zeroVal(et), false, true
	}
	return Value{}, false, false
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (g *Gor) chanRecv(cv Value, et *RType) (Value, bool, int) {
	if cv.P == nil {
		g.wait, g.waitOn = func() bool { return false }, "receive from nil channel"
		return Value{}, false, stRetry
	}
	c := cv.P.(*Chan)
	v, ok, done := g.tryRecv(c, et)
	if done {
		if g.aux == c {
			g.aux = nil
			c.recvN--
		}
		return v, ok, rNext
	}
	if g.aux != c {
		g.aux = c
		c.recvN++
	}
	g.wait, g.waitOn = c.canRecv, "chan receive"
	return Value{}, false, stRetry
}

func (g *Gor) chanClose(cv Value) {
	if cv.P == nil {
		panic(targetPanic{g.w.ex.runtimeError("close of nil channel"), false})
	}
	c := cv.P.(*Chan)
	if c.closed {
		panic(targetPanic{g.w.ex.runtimeError("close of closed channel"), false})
	}
	c.closed = true
	c.cvc = g.release(nil)
}

func (f *Func) selectInstr(in *ssa.Select, reg int) cfn {
	type st struct {
		send bool
		c, v opnd
		et   *RType
	}
	var sts []st
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly, c: f.operand(s.Chan)}
		x.et = rtype(s.Chan.Type().Underlying().(*types.Chan).Elem())
		if x.send {
			x.v = f.operand(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(g *Gor, f *Frame) int {
		w := f.w
		var ready []int
		for i := range sts {
			cv := f.get(&sts[i].c)
			if cv.P == nil {
				continue
			}
			c := cv.P.(*Chan)
			if sts[i].send {
				if c.closed || c.cap > 0 && len(c.buf) < c.cap || c.cap == 0 && c.recvN > 0 {
					ready = append(ready, i)
				}
			} else if c.canRecv() {
				ready = append(ready, i)
			}
		}
		sel := -1
		if len(ready) == 0 {
			if blocking {
				g.wait = func() bool {
					for i := range sts {
						cv := f.get(&sts[i].c)
						if cv.P == nil {
							continue
						}
						c := cv.P.(*Chan)
						if sts[i].send {
							if c.closed || c.cap > 0 && len(c.buf) < c.cap || c.cap == 0 && c.recvN > 0 {
								return true
							}
						} else if c.canRecv() {
							return true
						}
					}
					return false
				}
				g.waitOn = "select"
				return stRetry
			}
		} else {
			k := 0
			if len(ready) > 1 {
				k = w.choice(len(ready), "select")
			}
			sel = ready[k]
		}
		out := []Value{{N: uint64(sel)}, {}}
		for i := range sts {
			if sts[i].send {
				continue
			}
			v := zeroVal(sts[i].et)
			if i == sel {
				c := f.get(&sts[i].c).P.(*Chan)
				rv, ok, _ := g.tryRecv(c, sts[i].et)
				v = rv
				out[1] = b2v(ok)
			}
			out = append(out, v)
		}
		if sel >= 0 && sts[sel].send {
			c := f.get(&sts[sel].c).P.(*Chan)
			if c.closed {
				panic(targetPanic{w.ex.runtimeError("send on closed channel"), false})
			}
			v := f.get(&sts[sel].v)
			if c.cap > 0 {
				c.buf = append(c.buf, v)
				c.vcs = append(c.vcs, g.release(nil))
			} else {
				c.sendq = append(c.sendq, &sendWait{v: v, g: g, vc: g.release(nil)})
			}
		}
		out[0].N = uint64(int64(sel))
		f.regs[reg] = Value{P: &Agg{v: out}}
		return rYield
	}
}

var _ = sort.Ints
