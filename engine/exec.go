package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals raised with Go panic inside the engine ----

type pathEnd struct {
	kind string // assume | unsupported | bound | violation | deadline | stop
	msg  string
}

type targetPanic struct {
	val Value // interface value
	rt  bool  // run-time error
}

type vclock []uint32

type shadowCell struct {
	wg  int
	wc  uint32
	wpc string
	rd  vclock
	rpc map[int]string
}

type deferred struct {
	fn   *Func
	args []Value
	bi   func(g *Gor, f *Frame, args []Value)
	sig  any
}

type panicRec struct {
	val       Value
	rt        bool
	recovered bool
	goexit    bool
	stack     string
}

type Frame struct {
	w         *W
	fn        *Func
	regs      []Value
	blk       *cblock
	prev      int
	pc        int
	caller    *Frame
	dst       int
	defers    []deferred
	panicking *panicRec
	deferOf   *Frame
	onReturn  func(Value)
	recovered bool
	mergeFail map[*cblock]int
	pinned    bool
}

type Gor struct {
	w      *W
	id     int
	top    *Frame
	wait   func() bool
	waitOn string
	dead   bool
	vc     vclock
	argbuf []Value
	nested int
	isMain bool
	died   *panicRec
	aux    any
}

type journalEnt struct {
	o   *Obj
	off int
	v   Value
	fn  func()
}

type dec struct {
	k uint8 // 0 false 1 true, 2 choice, 3 concEq, 4 concNe
	v uint64
}

type workItem struct {
	prefix []dec
	model  *Model
	npre   int
}

type obsEnt struct {
	label string
	text  string
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Inputs  map[string]string `json:"inputs"`
	Order   []string          `json:"order"`
	Trace   []string          `json:"trace,omitempty"`
	Sched   []uint64          `json:"sched,omitempty"`
	Decs    []dec             `json:"-"`
	Obs     []string          `json:"obs,omitempty"`
	Conc    bool              `json:"concurrent"`
}

type inputVar struct {
	name string
	t    *Term
	v    Value
	isS  bool
	sym  []Value // string bytes
	w    uint8
	sgn  bool
	b    bool
}

// W is one worker: an interpreter with its own heap, terms and solver.
type W struct {
	ex       *Explorer
	id       int
	ts       *TermStore
	sol      *Solver
	globals  []*Obj
	typeObjs map[*RType]*Obj
	inits    map[*ssa.Package]int

	inPath   bool
	baseMode int
	journal  []journalEnt
	nextObj  uint64
	pathGen  int64

	// current path
	pc          []*Term
	model       *Model
	prefix      []dec
	pos         int
	trace       []dec
	gors        []*Gor
	cur         *Gor
	steps       int64
	maxSteps    int64
	depth       int
	inputs      []inputVar
	names       map[string]int
	obs         []obsEnt
	obsLater    []obsV
	reached     map[string]bool
	preempt     int
	maxPre      int
	raceOn      bool
	mapOrder    int
	concur      bool
	nsched      int
	schedLog    []uint64
	expectPanic bool
	inMerge     int
	mergeFails  map[*cblock]int
	mergeUndo   []undoStore
	nmerge      int64
	clock       int64
	output      []string
	knownHits   map[string]string
	frees       map[int][]*Frame
	aborted     bool
	snap        *snapshot
	warming     bool
	baseChans   []*Chan
	mainDone    *bool
	frontier    int

	// statistics
	fnCount           map[*Func]int64
	lastDeadlineCheck int64
	debug             bool
}

func newW(ex *Explorer, id int) *W {
	w := &W{ex: ex, id: id, ts: NewTermStore(), inits: map[*ssa.Package]int{}, fnCount: map[*Func]int64{}, frees: map[int][]*Frame{}, nextObj: 1, mergeFails: map[*cblock]int{}}
	s, err := NewSolver(w.ts, ex.solverTimeoutMs)
	if err != nil {
		panic(err)
	}
	w.sol = s
	return w
}

func (w *W) unsupported(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if w.debug && w.cur != nil && w.inMerge == 0 {
		m += "\n      " + strings.Join(w.cur.stack(), "\n      ")
	}
	panic(pathEnd{"unsupported", m})
}

func (w *W) newObj(n int) *Obj {
	w.nextObj++
	if n == 1 {
		type o1 struct {
			Obj
			a [1]Value
		}
		o := &o1{}
		o.slots = o.a[:]
		o.id = w.nextObj
		o.base = w.baseMode > 0
		return &o.Obj
	}
	if n <= 4 {
		type o4 struct {
			Obj
			a [4]Value
		}
		o := &o4{}
		o.slots = o.a[:n:n]
		o.id = w.nextObj
		o.base = w.baseMode > 0
		return &o.Obj
	}
	return &Obj{slots: make([]Value, n), id: w.nextObj, base: w.baseMode > 0}
}

func (w *W) journalFn(fn func()) {
	if w.baseMode == 0 {
		w.journal = append(w.journal, journalEnt{fn: fn})
	}
}

func (w *W) set(o *Obj, off int, v Value) {
	if o.base && w.baseMode == 0 {
		w.journal = append(w.journal, journalEnt{o: o, off: off, v: o.slots[off]})
	}
	o.slots[off] = v
}

func (w *W) undo() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		e := &w.journal[i]
		if e.fn != nil {
			e.fn()
		} else {
			e.o.slots[e.off] = e.v
		}
	}
	w.journal = w.journal[:0]
}

// ---- globals and lazy package initialisation ----

func (w *W) globalAddr(i int) Value {
	if i >= len(w.globals) {
		n := make([]*Obj, mach.nglobals()+64)
		copy(n, w.globals)
		w.globals = n
	}
	o := w.globals[i]
	if o == nil {
		g := mach.globalAt(i)
		t := rtype(g.Type().Underlying().(*types.Pointer).Elem())
		w.baseMode++
		o = w.newObj(t.slots)
		w.baseMode--
		o.name = g.String()
		w.globals[i] = o
		w.initPkg(g.Pkg)
	}
	return Value{P: o}
}

func (w *W) initPkg(p *ssa.Package) {
	if w.inits[p] != 0 {
		return
	}
	w.inits[p] = 1
	fn := p.Func("init")
	if fn == nil || skipInit[p.Pkg.Path()] {
		return
	}
	w.baseMode++
	saveSteps, race := w.steps, w.raceOn
	w.raceOn = false
	w.callNested(mach.fnOf(fn), nil)
	w.steps, w.raceOn = saveSteps, race
	w.baseMode--
	w.inits[p] = 2
}

// packages whose initialisers touch the operating system
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "internal/cpu": true,
	"internal/godebug": true, "net": true, "runtime/pprof": true, "runtime/trace": true, "crypto/rand": true, "os/exec": true,
	"log": false, "golang.org/x/sys/unix": true, "internal/syscall/unix": true, "testing": true, "internal/godebugs": true,
	"os/signal": true, "reflect": true, "time": true, "golang.org/x/sys/cpu": true, "github.com/klauspost/cpuid/v2": true,
	"internal/testlog": true, "flag": true, "internal/oserror": false, "encoding/json": true}

// callNested runs fn to completion on a private goroutine (no scheduling).
func (w *W) callNested(fn *Func, args []Value) Value {
	var res Value
	cur := w.cur
	vc := vclock(nil)
	id := -1
	if cur != nil {
		vc = cur.vc
		id = cur.id
	}
	g := &Gor{w: w, id: id, nested: 1, vc: vc}
	done := false
	w.depth++
	if w.depth > 200 {
		panic(pathEnd{"bound", "nested call depth"})
	}
	g.call(fn, args, nil, -1, func(v Value) { res = v; done = true })
	w.cur = g
	for !done {
		r := g.run(1 << 62)
		if g.top == nil {
			if g.died != nil {
				w.cur = cur
				w.depth--
				panic(targetPanic{g.died.val, g.died.rt})
			}
			break
		}
		if g.wait != nil {
			if g.wait() {
				g.wait = nil
				continue
			}
			w.unsupported("nested call blocks on %s", g.waitOn)
		}
		_ = r
	}
	w.cur = cur
	w.depth--
	return res
}

// ---- frames ----

func (w *W) newFrame(fn *Func) *Frame {
	l := w.frees[fn.id]
	if n := len(l); n > 0 {
		f := l[n-1]
		w.frees[fn.id] = l[:n-1]
		return f
	}
	return &Frame{w: w, fn: fn, regs: make([]Value, fn.nregs)}
}

func (w *W) freeFrame(f *Frame) {
	if f.pinned {
		return
	}
	for i := range f.regs {
		f.regs[i] = Value{}
	}
	f.caller, f.defers, f.panicking, f.deferOf, f.onReturn, f.recovered = nil, nil, nil, nil, nil, false
	f.pc, f.prev, f.blk = 0, 0, nil
	w.frees[f.fn.id] = append(w.frees[f.fn.id], f)
}

// call starts fn. For ordinary functions a frame is pushed (returns rFrame);
// intrinsics run at once and store their result in caller.regs[dst].
func (g *Gor) call(fn *Func, args []Value, binds []Value, dst int, onRet func(Value)) int {
	fn.prep()
	for fn.replace != nil {
		fn = fn.replace
	}
	if fn.intr != nil {
		v, st := fn.intr(g, fn, args)
		switch st {
		case stModel:
			return g.callBody(fn.fallback(), args, binds, dst, onRet)
		case stBlock:
			return stRetry
		case stPushed:
			if g.top.dst == -2 {
				g.top.dst = dst
				g.top.onReturn = onRet
			}
			return rFrame
		case stYield:
			if onRet != nil {
				onRet(v)
			} else if dst >= 0 {
				g.top.regs[dst] = v
			}
			return rYield
		}
		if onRet != nil {
			onRet(v)
		} else if dst >= 0 {
			g.top.regs[dst] = v
		}
		return rNext
	}
	return g.callBody(fn, args, binds, dst, onRet)
}

func (g *Gor) callBody(fn *Func, args []Value, binds []Value, dst int, onRet func(Value)) int {
	w := g.w
	if fn.noBody != "" {
		w.unsupported("no body: %s", fn.noBody)
	}
	f := w.newFrame(fn)
	copy(f.regs, args)
	copy(f.regs[fn.nparam:], binds)
	f.caller = g.top
	f.dst = dst
	f.onReturn = onRet
	f.blk = fn.blocks[0]
	g.top = f
	w.fnCount[fn]++
	return rFrame
}

const stRetry = 100

func (f *Frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return f.regs[o.idx]
	case 1:
		return o.val
	}
	return f.w.globalAddr(o.idx)
}

func (f *Frame) jump(b *cblock, from *cblock) {
	if len(b.phis) > 0 {
		pi := 0
		for i, p := range b.preds {
			if p == from.idx {
				pi = i
				break
			}
		}
		if len(b.phis) == 1 {
			p := &b.phis[0]
			f.regs[p.dst] = f.get(&p.src[pi])
		} else {
			var tmp [8]Value
			t := tmp[:0]
			for i := range b.phis {
				t = append(t, f.get(&b.phis[i].src[pi]))
			}
			for i := range b.phis {
				f.regs[b.phis[i].dst] = t[i]
			}
		}
	}
	f.prev = from.idx
	f.blk = b
	f.pc = 0
}

// run executes up to n instructions; returns when the goroutine ends, blocks
// or yields.
func (g *Gor) run(n int64) (r int) {
	for {
		r, again := g.runInner(n)
		if !again {
			return r
		}
	}
}

func (g *Gor) runInner(n int64) (r int, again bool) {
	w := g.w
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case targetPanic:
				g.startPanic(e.val, e.rt)
				again = true
			case pathEnd:
				panic(e)
			default:
				w.ex.noteInternal(fmt.Sprint(e), g.stack(), w.debug)
				panic(pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", e, g.where())})
			}
		}
	}()
	for g.top != nil {
		f := g.top
		if f.panicking != nil {
			if !g.unwind() {
				return rNext, false
			}
			continue
		}
		code := f.blk.code
		w.steps++
		if w.steps&0xfff == 0 {
			w.checkLimits()
		}
		for f.pc < len(code) {
			c := code[f.pc]
			f.pc++
			s := c(g, f)
			if s == rNext {
				continue
			}
			w.steps += int64(4)
			if s == rYield {
				return rYield, false
			}
			if s == stRetry {
				f.pc--
				return rYield, false
			}
			break
		}
	}
	return rNext, false
}

func (w *W) checkLimits() {
	if w.inPath && w.baseMode == 0 {
		if w.maxSteps > 0 && w.steps > w.maxSteps {
			panic(pathEnd{"bound", fmt.Sprintf("step limit %d", w.maxSteps)})
		}
	}
	if time.Now().After(w.ex.deadline) {
		panic(pathEnd{"deadline", "time budget"})
	}
}

func (g *Gor) where() string {
	f := g.top
	if f == nil {
		return "?"
	}
	return f.fn.name + " " + f.line()
}

func (f *Frame) line() string {
	if f.blk == nil {
		return ""
	}
	i := f.pc - 1
	if i < 0 {
		i = 0
	}
	for ; i >= 0 && i < len(f.blk.ins); i-- {
		if p := f.blk.ins[i].Pos(); p.IsValid() {
			ps := mach.l.Prog.Fset.Position(p)
			fn := ps.Filename
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			return fmt.Sprintf("%s:%d", fn, ps.Line)
		}
	}
	return ""
}

// SYMGO_PANICS=1 logs all panics of the executed code, also recovered ones.
var logPanics = os.Getenv("SYMGO_PANICS") != ""

func (g *Gor) stack() []string {
	var out []string
	n := 0
	for f := g.top; f != nil && n < 25; f = f.caller {
		out = append(out, f.fn.name+" "+f.line())
		n++
	}
	return out
}

func (g *Gor) startPanic(v Value, rt bool) {
	rec := &panicRec{val: v, rt: rt, stack: strings.Join(g.stack(), "\n")}
	if logPanics {
		fmt.Fprintln(os.Stderr, "panic:", g.w.panicText(v), "\n"+rec.stack)
	}
	if g.top == nil {
		g.uncaught(rec)
		return
	}
	g.top.panicking = rec
}

// unwind advances panicking of the top frame. Returns false if the goroutine died.
func (g *Gor) unwind() bool {
	f := g.top
	rec := f.panicking
	if rec.recovered {
		f.panicking = nil
		f.recovered = true
		return g.finishRecovered(f)
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		g.runDeferred(f, d)
		return true
	}
	g.top = f.caller
	if g.top == nil {
		g.uncaught(rec)
		return false
	}
	g.top.panicking = rec
	return true
}

// finishRecovered runs the remaining defers, then leaves through the recover block.
func (g *Gor) finishRecovered(f *Frame) bool {
	if n := len(f.defers); n > 0 {
		// remaining defers run in normal mode; use RunDefers-like loop by
		// keeping a marker: re-enter unwind via a pseudo panic record.
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		f.panicking = &panicRec{recovered: true}
		g.runDeferred(f, d)
		return true
	}
	if f.fn.recov != nil {
		f.blk = f.fn.recov
		f.pc = 0
		return true
	}
	var v Value
	if f.fn.res != nil {
		v = zeroVal(f.fn.res)
	}
	g.ret(f, v)
	return true
}

func (g *Gor) runDeferred(f *Frame, d deferred) {
	if d.bi != nil {
		d.bi(g, f, d.args)
		return
	}
	fn := d.fn
	fn.prep()
	var binds []Value
	if d.sig != nil {
		binds = d.sig.([]Value)
	}
	r := g.call(fn, d.args, binds, -1, nil)
	if r == stRetry {
		// cannot block inside an intrinsic deferred: put it back
		f.defers = append(f.defers, d)
		g.deferBlocked()
		return
	}
	if r == rFrame && g.top != f {
		g.top.deferOf = f
	}
}

func (g *Gor) deferBlocked() { g.w.unsupported("deferred call blocks") }

func (g *Gor) ret(f *Frame, v Value) {
	g.top = f.caller
	if f.onReturn != nil {
		f.onReturn(v)
	} else if f.dst >= 0 && f.caller != nil {
		f.caller.regs[f.dst] = v
	}
	g.w.freeFrame(f)
}

func (g *Gor) uncaught(rec *panicRec) {
	g.top = nil
	g.dead = true
	if rec.goexit {
		return
	}
	if g.nested > 0 {
		g.died = rec
		return
	}
	g.w.violation("panic", "uncaught panic: "+g.w.panicText(rec.val), strings.Split(rec.stack, "\n"))
}

func (w *W) panicText(v Value) string {
	if v.P == nil {
		return "nil"
	}
	i := v.P.(*Iface)
	switch i.t.kind {
	case KString:
		if s, ok := conc(i.v); ok {
			return s
		}
		return "<symbolic string>"
	case KInt:
		return fmt.Sprint(i.v.N)
	}
	if i.t.kind == KStruct || i.t.kind == KPtr {
		// error values: try Error()
		if m := w.lookupMethod(i.t, nil, "Error"); m != nil {
			var out string
			func() {
				defer func() { recover() }()
				r := w.callNested(m, []Value{i.v})
				out, _ = conc(r)
			}()
			if out != "" {
				return out
			}
		}
	}
	return i.t.String()
}

// ---- path conditions and decisions ----

func (w *W) addPC(t *Term) {
	if t == w.ts.True {
		return
	}
	w.pc = append(w.pc, t)
}

func (w *W) evalT(t *Term) uint64 { return w.ts.eval(t, w.model, w.ts.NewGen()) }

func (w *W) nextDec() (dec, bool) {
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trace = append(w.trace, d)
		return d, true
	}
	return dec{}, false
}

// branch decides a symbolic condition.
func (w *W) branch(c *Term) bool {
	if c.op == OpConst {
		return c.k == 1
	}
	if w.inMerge > 0 {
		panic(mergeAbort{})
	}
	if w.baseMode > 0 {
		w.unsupported("symbolic branch during package initialisation or before the checkpoint")
	}
	if d, ok := w.nextDec(); ok {
		take := d.k&1 == 1
		if d.k < 10 {
			if take {
				w.addPC(c)
			} else {
				w.addPC(w.ts.Not(c))
			}
		}
		return take
	}
	take := w.evalT(c) != 0
	other := c
	if take {
		other = w.ts.Not(c)
	}
	sat, m := w.sol.Check(w.pc, other, w.model, true)
	forced := false
	switch sat {
	case 1:
		var k uint8
		if !take {
			k = 1
		}
		w.push(dec{k: k}, m)
	case 0:
		forced = true
	default:
		w.ex.noteUnknown()
	}
	d := dec{}
	if take {
		d.k = 1
	}
	if forced {
		d.k += 10
	} else {
		if take {
			w.addPC(c)
		} else {
			w.addPC(w.ts.Not(c))
		}
	}
	w.trace = append(w.trace, d)
	return take
}

func (w *W) push(last dec, m *Model) {
	p := make([]dec, len(w.trace)+1)
	copy(p, w.trace)
	p[len(w.trace)] = last
	w.ex.push(&workItem{prefix: p, model: m, npre: w.preempt})
}

// choice explores all n alternatives (a fresh decision variable).
func (w *W) choice(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if w.baseMode > 0 {
		w.unsupported("choice during package initialisation or before the checkpoint")
	}
	w.nsched++
	if d, ok := w.nextDec(); ok {
		w.schedLog = append(w.schedLog, d.v)
		return int(d.v)
	}
	if choiceProf != nil {
		st := label
		if w.cur != nil && w.cur.top != nil {
			k := 0
			for f := w.cur.top; f != nil && k < 4; f = f.caller {
				st += " < " + f.fn.name
				k++
			}
		}
		choiceMu.Lock()
		choiceProf[st] += n - 1
		choiceMu.Unlock()
	}
	for i := n - 1; i >= 1; i-- {
		w.push(dec{k: 2, v: uint64(i)}, w.model)
	}
	w.ex.addChoice()
	w.trace = append(w.trace, dec{k: 2, v: 0})
	w.schedLog = append(w.schedLog, 0)
	return 0
}

// concretize forks over all feasible values of t.
func (w *W) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if w.inMerge > 0 {
		panic(mergeAbort{})
	}
	if w.baseMode > 0 {
		w.unsupported("symbolic value during package initialisation or before the checkpoint")
	}
	if t.w == 0 {
		if w.branch(t) {
			return 1
		}
		return 0
	}
	for {
		if d, ok := w.nextDec(); ok {
			eq := w.ts.Eq(t, w.ts.Const(t.w, d.v))
			if d.k == 3 {
				w.addPC(eq)
				return d.v
			}
			w.addPC(w.ts.Not(eq))
			continue
		}
		v := w.evalT(t)
		eq := w.ts.Eq(t, w.ts.Const(t.w, v))
		sat, m := w.sol.Check(w.pc, w.ts.Not(eq), w.model, true)
		if sat == 1 {
			w.push(dec{k: 4, v: v}, m)
		} else if sat < 0 {
			w.ex.noteUnknown()
		}
		w.addPC(eq)
		w.trace = append(w.trace, dec{k: 3, v: v})
		return v
	}
}

func (w *W) concInt(v Value, t *RType) int64 {
	n := v.N
	if v.P != nil {
		term, ok := v.P.(*Term)
		if !ok {
			w.unsupported("concInt of %T", v.P)
		}
		n = w.concretize(term)
	}
	if t != nil && t.signed {
		return sext64(n, t.w)
	}
	return int64(n)
}

func (w *W) assume(c *Term) {
	if c == w.ts.True {
		return
	}
	if c == w.ts.False {
		panic(pathEnd{"assume", ""})
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
		return
	}
	if w.evalT(c) == 0 {
		sat, m := w.sol.Check(w.pc, c, w.model, true)
		if sat == 0 {
			panic(pathEnd{"assume", ""})
		}
		if sat < 0 {
			w.ex.noteUnknown()
			panic(pathEnd{"bound", "solver unknown at assume"})
		}
		w.model = m
	}
	w.addPC(c)
}

func (w *W) assertT(c *Term, msg string, g *Gor) {
	w.ex.addAssert()
	if c == w.ts.True {
		return
	}
	if w.pos < len(w.prefix) {
		// already checked on the path that produced this prefix
		return
	}
	not := w.ts.Not(c)
	if w.evalT(not) != 0 {
		w.violation("assert", msg, g.stack())
		return
	}
	sat, m := w.sol.Check(w.pc, not, w.model, false)
	switch sat {
	case 1:
		save := w.model
		w.model = m
		w.recordViolation("assert", msg, g.stack())
		w.model = save
		w.addPC(c)
	case 0:
	default:
		w.ex.noteUnknown()
	}
}

func (w *W) inputMap() (map[string]string, []string) {
	in := map[string]string{}
	var order []string
	gen := w.ts.NewGen()
	ev := func(v Value) uint64 {
		if t, ok := v.P.(*Term); ok {
			return w.ts.eval(t, w.model, gen)
		}
		return v.N
	}
	for _, iv := range w.inputs {
		order = append(order, iv.name)
		if iv.isS {
			b := make([]byte, len(iv.sym))
			for i, s := range iv.sym {
				b[i] = byte(ev(s))
			}
			in[iv.name] = fmt.Sprintf("%q", string(b))
			in[iv.name] = "x" + fmt.Sprintf("%x", b)
			continue
		}
		u := ev(iv.v)
		if iv.sgn {
			in[iv.name] = fmt.Sprint(sext64(u, iv.w))
		} else {
			in[iv.name] = fmt.Sprint(u)
		}
	}
	return in, order
}

func (w *W) recordViolation(kind, msg string, st []string) {
	in, order := w.inputMap()
	v := &Violation{Harness: w.ex.harness, Kind: kind, Msg: msg, Inputs: in, Order: order, Trace: st, Sched: append([]uint64(nil), w.schedLog...), Conc: w.concur, Decs: append([]dec(nil), w.trace...)}
	v.Obs = w.obsTexts()
	w.ex.addViolation(v)
}

func (w *W) violation(kind, msg string, st []string) {
	w.recordViolation(kind, msg, st)
	panic(pathEnd{"violation", msg})
}

func (w *W) obsTexts() []string {
	var out []string
	for _, o := range w.obsLater {
		out = append(out, o.label+"="+w.text(o.v, o.t))
	}
	return out
}

// ---- running a path ----

func (w *W) runPath(it *workItem, fn *Func) (end pathEnd) {
	w.pathGen++
	w.pc = w.pc[:0]
	w.model = it.model
	if w.model == nil {
		w.model = &Model{}
	}
	w.prefix = it.prefix
	w.pos = 0
	w.trace = w.trace[:0]
	w.gors = w.gors[:0]
	w.steps = 0
	w.depth = 0
	w.baseMode = 0
	w.inputs = w.inputs[:0]
	w.names = map[string]int{}
	w.obs = w.obs[:0]
	w.obsLater = w.obsLater[:0]
	w.preempt = 0
	w.maxPre = w.ex.maxPre
	w.raceOn = false
	w.mapOrder = 0
	w.concur = false
	w.nsched = 0
	w.schedLog = w.schedLog[:0]
	w.inPath = true
	w.inMerge = 0
	clear(w.mergeFails)
	w.clock = 0
	w.output = nil
	w.knownHits = map[string]string{}
	if len(w.ts.tab) > 3000000 {
		w.ts = NewTermStore()
		w.sol.ts = w.ts
		w.sol.gen = 0
		w.sol.cache = map[string]*qres{}
		w.ex.noteReset()
	}
	defer func() {
		w.undo()
		w.inPath = false
		w.cur = nil
		if e := recover(); e != nil {
			pe, ok := e.(pathEnd)
			if !ok {
				panic(e)
			}
			end = pe
			if w.baseMode > 0 {
				// a package initialiser was cut short: its state is unusable
				w.globals = nil
				w.inits = map[*ssa.Package]int{}
				w.baseMode = 0
				w.baseChans = nil
			}
		}
	}()
	if w.snap != nil {
		w.restoreSnapshot()
		done := w.snap.done
		w.schedule(func() bool { return *done })
		return pathEnd{"done", ""}
	}
	g := &Gor{w: w, id: 0, isMain: true, vc: vclock{1}}
	w.gors = append(w.gors, g)
	w.cur = g
	done := false
	w.mainDone = &done
	if w.ex.ckpt {
		w.baseMode = 1
	}
	g.call(fn, nil, nil, -1, func(Value) { done = true })
	w.schedule(func() bool { return done })
	if w.baseMode > 0 {
		w.unsupported("the checkpoint was not reached")
	}
	return pathEnd{"done", ""}
}

// inAtomic: some goroutine is inside a function that takes no part in the
// scheduling choices.
func (w *W) inAtomic() bool {
	for _, g := range w.gors {
		if g.dead {
			continue
		}
		for f := g.top; f != nil; f = f.caller {
			if f.fn.atomic {
				return true
			}
		}
	}
	return false
}

// schedule runs goroutines until fin holds.
func (w *W) schedule(fin func() bool) {
	for !fin() {
		g := w.cur
		if g == nil || g.dead || g.top == nil || g.wait != nil && !g.wait() {
			// must switch
			var ready []*Gor
			for _, x := range w.gors {
				if x.dead || x.top == nil {
					continue
				}
				if x.wait == nil || x.wait() {
					ready = append(ready, x)
				}
			}
			if len(ready) == 0 {
				var st []string
				for _, x := range w.gors {
					if !x.dead && x.top != nil {
						st = append(st, fmt.Sprintf("goroutine %d waits: %s at %s", x.id, x.waitOn, x.where()))
					}
				}
				w.violation("deadlock", "all goroutines are blocked", st)
			}
			i := 0
			if len(ready) > 1 && w.concur && !w.inAtomic() {
				i = w.choice(len(ready), "sched")
			}
			g = ready[i]
			w.cur = g
		}
		g.wait = nil
		g.run(1 << 62)
		if g.top == nil {
			g.dead = true
			continue
		}
		if g.wait == nil && w.concur && len(w.gors) > 1 && w.preempt < w.maxPre && !w.inAtomic() {
			// yield point: may preempt
			var others []*Gor
			for _, x := range w.gors {
				if x != g && !x.dead && x.top != nil && (x.wait == nil || x.wait()) {
					others = append(others, x)
				}
			}
			if len(others) > 0 {
				c := w.choice(len(others)+1, "preempt")
				if c > 0 {
					w.preempt++
					w.cur = others[c-1]
				}
			}
		}
	}
}

func (w *W) spawn(fn *Func, args, binds []Value) {
	g := &Gor{w: w, id: len(w.gors)}
	if w.cur != nil && w.cur.vc != nil {
		for len(w.cur.vc) <= g.id {
			w.cur.vc = append(w.cur.vc, 0)
		}
		g.vc = append(vclock(nil), w.cur.vc...)
		g.vc[g.id] = 1
		if w.cur.id >= 0 {
			w.cur.vc[w.cur.id]++
		}
	}
	if w.cur != nil && w.cur.nested > 0 {
		// goroutine started from a nested call: run it eagerly
		w.callNested(fn, args)
		return
	}
	if len(w.gors) > 64 {
		panic(pathEnd{"bound", "more than 64 goroutines"})
	}
	w.gors = append(w.gors, g)
	g.call(fn, args, binds, -1, nil)
	if g.top == nil {
		g.dead = true
	}
}

var _ = rand.Int
var _ = sort.Ints

// SYMGO_CHOICES=1 counts where choices are made.
var choiceProf map[string]int
var choiceMu sync.Mutex

func init() {
	if os.Getenv("SYMGO_CHOICES") != "" {
		choiceProf = map[string]int{}
	}
}

func dumpChoices() {
	var ks []string
	for k := range choiceProf {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return choiceProf[ks[i]] > choiceProf[ks[j]] })
	for i, k := range ks {
		if i < 40 {
			fmt.Fprintf(os.Stderr, "   choices %8d %s\n", choiceProf[k], k)
		}
	}
}
