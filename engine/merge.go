package main

import (
	"go/token"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type mergeAbort struct{}

// undoStore restores what a merge that fails has stored.
type undoStore struct {
	p, old Value
	t      *RType
}

// pureInstr reports whether an instruction may be executed speculatively.
func (f *Func) pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		return in.Op != token.QUO && in.Op != token.REM
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Convert:
		k := rtype(in.Type()).kind
		k2 := rtype(in.X.Type()).kind
		return k == KInt && k2 == KInt
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.Extract, *ssa.Phi:
		return true
	case *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Return:
		return true
	case *ssa.Lookup:
		return rtype(in.X.Type()).kind == KString
	case *ssa.Call:
		if in.Call.IsInvoke() {
			return false
		}
		switch c := in.Call.Value.(type) {
		case *ssa.Builtin:
			return c.Name() == "len" || c.Name() == "min" || c.Name() == "max"
		case *ssa.Function:
			return true
		}
		return false
	}
	return false
}

func (f *Func) isPure() bool {
	p := atomic.LoadInt32(&f.pure)
	if p != 0 {
		return p == 1
	}
	ok := f.order != nil && f.intr == nil && f.replace == nil && f.noBody == "" && len(f.blocks) <= 80 && f.res != nil &&
		(f.res.kind == KBool || f.res.kind == KInt) && f.fn.Recover == nil
	if ok {
		for _, b := range f.blocks {
			for _, in := range b.ins {
				if !f.pureInstr(in) {
					ok = false
				}
			}
		}
	}
	if ok {
		atomic.StoreInt32(&f.pure, 1)
	} else {
		atomic.StoreInt32(&f.pure, 2)
	}
	return ok
}

func (w *W) evalPure(fn *Func, args []Value, depth int) (res Value, ok bool) {
	fn.prep()
	if !fn.isPure() || depth > 8 {
		return Value{}, false
	}
	if depth == 0 {
		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case mergeAbort, targetPanic:
					w.inMerge = 0
					ok = false
				default:
					panic(e)
				}
			}
		}()
	}
	w.inMerge++
	fr := &Frame{w: w, fn: fn, regs: make([]Value, fn.nregs)}
	copy(fr.regs, args)
	guards := make([]*Term, len(fn.blocks))
	guards[0] = w.ts.True
	res, ok = w.evalRegion(fr, fn.order, guards, nil, nil, depth)
	w.inMerge--
	return res, ok
}

type edgeVal struct {
	from int
	g    *Term
}

// evalRegion evaluates blocks in topological order under guards. If join is
// nil, the region ends in returns and their merged value is the result;
// otherwise the guards of the edges into join are collected in edges.
func (w *W) evalRegion(fr *Frame, order []*cblock, guards []*Term, join *cblock, edges *[]edgeVal, depth int) (Value, bool) {
	return w.evalRegionH(fr, nil, nil, order, guards, join, edges, depth)
}

func (w *W) evalRegionH(fr *Frame, head *cblock, headC *Term, order []*cblock, guards []*Term, join *cblock, edges *[]edgeVal, depth int) (Value, bool) {
	s := w.ts
	var rets []struct {
		g *Term
		v []Value
	}
	edgeG := map[[2]int]*Term{}
	addEdge := func(from, to *cblock, g *Term) {
		if g == s.False {
			return
		}
		if join != nil && to == join {
			*edges = append(*edges, edgeVal{from.idx, g})
			return
		}
		k := [2]int{from.idx, to.idx}
		if o := edgeG[k]; o != nil {
			g = s.Or(o, g)
		}
		edgeG[k] = g
		if guards[to.idx] == nil {
			guards[to.idx] = g
		} else {
			guards[to.idx] = s.Or(guards[to.idx], g)
		}
	}
	var resT *RType
	if head != nil {
		addEdge(head, head.succs[0], headC)
		addEdge(head, head.succs[1], s.Not(headC))
	}
	for _, b := range order {
		g := guards[b.idx]
		if g == nil || g == s.False {
			continue
		}
		for i := range b.phis {
			p := &b.phis[i]
			var acc Value
			have := false
			for k := len(b.preds) - 1; k >= 0; k-- {
				eg := edgeG[[2]int{b.preds[k], b.idx}]
				if eg == nil {
					continue
				}
				v := fr.get(&p.src[k])
				if !have {
					acc, have = v, true
					continue
				}
				m, ok := w.iteVal(eg, v, acc, p.t)
				if !ok {
					return Value{}, false
				}
				acc = m
			}
			fr.regs[p.dst] = acc
		}
		for i, in := range b.ins {
			switch in := in.(type) {
			case *ssa.Call:
				if callee, ok := in.Call.Value.(*ssa.Function); ok {
					cf := mach.fnOf(callee)
					cf.prep()
					for cf.replace != nil {
						cf = cf.replace
					}
					var av []Value
					for _, a := range in.Call.Args {
						o := fr.fn.operandRT(a)
						av = append(av, fr.get(&o))
					}
					r, ok := w.evalPureNested(cf, av, depth+1)
					if !ok {
						return Value{}, false
					}
					fr.regs[fr.fn.regOf[in]] = r
					continue
				}
				b.code[i](nil, fr)
			case *ssa.If:
				o := fr.fn.operandRT(in.Cond)
				c := w.term(fr.get(&o), 0)
				addEdge(b, b.succs[0], s.And(g, c))
				addEdge(b, b.succs[1], s.And(g, s.Not(c)))
			case *ssa.Jump:
				addEdge(b, b.succs[0], g)
			case *ssa.Return:
				var vs []Value
				for _, r := range in.Results {
					o := fr.fn.operandRT(r)
					vs = append(vs, fr.get(&o))
				}
				resT = fr.fn.res
				rets = append(rets, struct {
					g *Term
					v []Value
				}{g, vs})
			case *ssa.Store:
				// only in regions (regionOf): a conditional store to a known place
				a, v := fr.fn.operandRT(in.Addr), fr.fn.operandRT(in.Val)
				t := rtype(in.Val.Type())
				p := fr.get(&a)
				if _, ok := p.P.(*Obj); !ok || w.raceOn || w.concur {
					return Value{}, false
				}
				old := w.load(p, t)
				m, ok := w.iteVal(g, fr.get(&v), old, t)
				if !ok {
					return Value{}, false
				}
				w.mergeUndo = append(w.mergeUndo, undoStore{p, old, t})
				w.store(p, m, t)
			default:
				b.code[i](nil, fr)
			}
		}
	}
	if join != nil {
		return Value{}, true
	}
	if len(rets) == 0 {
		return Value{}, false
	}
	last := rets[len(rets)-1]
	acc := append([]Value(nil), last.v...)
	for i := len(rets) - 2; i >= 0; i-- {
		for k := range acc {
			t := resT
			if resT != nil && resT.kind == KTuple {
				t = resT.fields[k].t
			}
			m, ok := w.iteVal(rets[i].g, rets[i].v[k], acc[k], t)
			if !ok {
				return Value{}, false
			}
			acc[k] = m
		}
	}
	switch len(acc) {
	case 0:
		return Value{}, true
	case 1:
		return acc[0], true
	}
	return Value{P: &Agg{v: acc}}, true
}

func (w *W) evalPureNested(fn *Func, args []Value, depth int) (Value, bool) {
	if fn.intr != nil {
		return Value{}, false
	}
	return w.evalPure(fn, args, depth)
}

func (w *W) iteVal(g *Term, a, b Value, t *RType) (Value, bool) {
	if a == b {
		return a, true
	}
	if t != nil && (t.kind == KInt || t.kind == KBool) && !isPtrish(a) && !isPtrish(b) {
		return tv(w.ts.Ite(g, w.term(a, t.w), w.term(b, t.w))), true
	}
	return Value{}, false
}

// operandRT resolves an operand at run time (cached).
func (f *Func) operandRT(v ssa.Value) opnd {
	if r, ok := f.regOf[v]; ok {
		return opnd{kind: 0, idx: r}
	}
	if c, ok := constCache.Load(v); ok {
		return c.(opnd)
	}
	o := f.operand(v)
	constCache.Store(v, o)
	return o
}

var constCache sync.Map

type region struct {
	ok     bool
	join   *cblock // nil: returns
	order  []*cblock
	blocks map[int]bool
}

var regionCache sync.Map // *cblock -> *region

func (f *Func) ipdom(start *cblock) (*cblock, bool) {
	// immediate post-dominator of start by reachability with removal; regions
	// are small so a bounded search suffices.
	// collect blocks reachable from start in BFS order, bounded
	const lim = 40
	var order []*cblock
	seen := map[int]bool{start.idx: true}
	q := []*cblock{start}
	for len(q) > 0 && len(order) < lim {
		b := q[0]
		q = q[1:]
		for _, s := range b.succs {
			if !seen[s.idx] {
				seen[s.idx] = true
				order = append(order, s)
				q = append(q, s)
			}
		}
	}
	// candidate j post-dominates start if every path from start hits j: check
	// that a search avoiding j never reaches an exit and never exceeds the bound.
	for _, j := range order {
		vis := map[int]bool{start.idx: true}
		st := []*cblock{start}
		ok := true
		cnt := 0
		for len(st) > 0 && ok {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if len(b.succs) == 0 {
				ok = false
				break
			}
			for _, s := range b.succs {
				if s == j || vis[s.idx] {
					if s == start {
						ok = false
					}
					continue
				}
				vis[s.idx] = true
				cnt++
				if cnt > 24 {
					ok = false
					break
				}
				st = append(st, s)
			}
		}
		if ok {
			return j, true
		}
	}
	return nil, false
}

func (f *Func) regionOf(cb *cblock) *region {
	if v, ok := regionCache.Load(cb); ok {
		return v.(*region)
	}
	r := &region{}
	defer regionCache.Store(cb, r)
	j, ok := f.ipdom(cb)
	if !ok {
		j = nil
	}
	r.join = j
	r.blocks = map[int]bool{}
	state := map[int]int{}
	good := true
	var visit func(b *cblock)
	visit = func(b *cblock) {
		if !good || b == j {
			return
		}
		if b == cb {
			good = false
			return
		}
		switch state[b.idx] {
		case 1:
			good = false
			return
		case 2:
			return
		}
		state[b.idx] = 1
		if len(state) > 24 {
			good = false
			return
		}
		for _, in := range b.ins {
			if st, ok := in.(*ssa.Store); ok && j != nil {
				if k := rtype(st.Val.Type()).kind; k == KInt || k == KBool {
					continue
				}
			}
			if !f.pureInstr(in) {
				good = false
				return
			}
			if j != nil {
				if _, isRet := in.(*ssa.Return); isRet {
					good = false
					return
				}
			}
		}
		for _, s := range b.succs {
			visit(s)
		}
		state[b.idx] = 2
		r.order = append(r.order, b)
	}
	for _, s := range cb.succs {
		visit(s)
	}
	if !good {
		return r
	}
	for i, k := 0, len(r.order)-1; i < k; i, k = i+1, k-1 {
		r.order[i], r.order[k] = r.order[k], r.order[i]
	}
	for _, b := range r.order {
		r.blocks[b.idx] = true
	}
	for _, b := range r.order {
		for _, p := range b.preds {
			if p != cb.idx && !r.blocks[p] {
				return r
			}
		}
	}
	if j == nil && f.fn.Recover != nil {
		return r
	}
	// phis of the join must be mergeable kinds when they differ
	r.ok = true
	return r
}

// tryMerge replaces a fork by ite-terms when both sides are side-effect free
// and reconverge.
func (w *W) tryMerge(g *Gor, f *Frame, fn *Func, cb *cblock, c *Term) (merged bool) {
	if c.op == OpConst || w.baseMode > 0 || w.ex.noMerge || w.inMerge > 0 {
		return false
	}
	r := fn.regionOf(cb)
	if !r.ok {
		return false
	}
	if w.mergeFails[cb] > 6 {
		return false
	}
	w.mergeUndo = w.mergeUndo[:0]
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case mergeAbort, targetPanic:
				w.inMerge = 0
				w.mergeFails[cb]++
				merged = false
			default:
				panic(e)
			}
		}
		if !merged {
			for i := len(w.mergeUndo) - 1; i >= 0; i-- {
				u := w.mergeUndo[i]
				w.store(u.p, u.old, u.t)
			}
		}
	}()
	w.inMerge = 1
	s := w.ts
	guards := make([]*Term, len(fn.blocks))
	var edges []edgeVal
	// seed with the two edges of cb
	res, ok := w.evalRegionH(f, cb, c, r.order, guards, r.join, &edges, 0)
	w.inMerge = 0
	if !ok {
		w.mergeFails[cb]++
		return false
	}
	if r.join == nil {
		w.nmerge++
		g.ret(f, res)
		return true
	}
	// phis of the join
	b := r.join
	vals := make([]Value, len(b.phis))
	for i := range b.phis {
		p := &b.phis[i]
		var acc Value
		have := false
		for k := len(b.preds) - 1; k >= 0; k-- {
			var eg *Term
			for _, e := range edges {
				if e.from == b.preds[k] {
					if eg == nil {
						eg = e.g
					} else {
						eg = s.Or(eg, e.g)
					}
				}
			}
			if eg == nil {
				continue
			}
			v := f.get(&p.src[k])
			if !have {
				acc, have = v, true
				continue
			}
			m, ok := w.iteVal(eg, v, acc, p.t)
			if !ok {
				w.mergeFails[cb]++
				return false
			}
			acc = m
		}
		vals[i] = acc
	}
	for i := range b.phis {
		f.regs[b.phis[i].dst] = vals[i]
	}
	f.prev = cb.idx
	f.blk = b
	f.pc = 0
	w.nmerge++
	return true
}
