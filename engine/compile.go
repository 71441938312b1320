package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type cfn func(g *Gor, f *Frame) int

const (
	rNext  = 0 // continue with the next instruction
	rFrame = 1 // the current frame or block changed
	rYield = 2 // give the scheduler a chance
)

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global
	idx  int
	val  Value
}

type phiSrc struct {
	dst int
	src []opnd // per predecessor
	t   *RType
}

type cblock struct {
	idx   int
	phis  []phiSrc
	code  []cfn
	ins   []ssa.Instruction
	succs []*cblock
	preds []int
}

type Func struct {
	fn      *ssa.Function
	name    string
	id      int
	once    sync.Once
	nregs   int
	blocks  []*cblock
	recov   *cblock
	nparam  int
	nfree   int
	intr    intrinsic
	res     *RType // result register type (nil if none)
	regOf   map[ssa.Value]int
	pure    int32 // 0 unknown, 1 pure, 2 not
	inRepo  bool
	ordered bool // map iteration order matters here: code of the repository itself
	atomic  bool // runs without scheduling choices
	pkg     string
	replace *Func // model function in Go
	noBody  string
	noRace  bool      // internals of the models of sync types
	order   []*cblock // topological order if acyclic
	fall    *Func
	fmu     sync.Mutex
	ninstr  int
}

type Machine struct {
	l        *Loaded
	mu       sync.Mutex
	funcs    map[*ssa.Function]*Func
	fcache   sync.Map
	nfuncs   int32
	globals  map[*ssa.Global]int
	globList []*ssa.Global
	gmu      sync.Mutex
	initFn   sync.Map // *ssa.Package -> *Func
	models   map[string]*ssa.Function
	repl     map[string]*ssa.Function // harness-level replacements
}

var mach *Machine

func (m *Machine) fnOf(fn *ssa.Function) *Func {
	if v, ok := m.fcache.Load(fn); ok {
		return v.(*Func)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if f, ok := m.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, id: int(atomic.AddInt32(&m.nfuncs, 1))}
	f.name = funcName(fn)
	f.noRace = f.name == modPath+"/internal/vmodel.sm" || f.name == modPath+"/internal/vmodel.av"
	m.funcs[fn] = f
	m.fcache.Store(fn, f)
	return f
}

// funcName is the canonical name used for intrinsics: generic origins without
// type arguments.
func funcName(fn *ssa.Function) string {
	o := fn
	if og := fn.Origin(); og != nil {
		o = og
	}
	s := o.RelString(nil)
	return s
}

func (m *Machine) global(g *ssa.Global) int {
	m.gmu.Lock()
	defer m.gmu.Unlock()
	if i, ok := m.globals[g]; ok {
		return i
	}
	i := len(m.globList)
	m.globals[g] = i
	m.globList = append(m.globList, g)
	return i
}

func (m *Machine) nglobals() int { m.gmu.Lock(); defer m.gmu.Unlock(); return len(m.globList) }
func (m *Machine) globalAt(i int) *ssa.Global {
	m.gmu.Lock()
	defer m.gmu.Unlock()
	return m.globList[i]
}

func (f *Func) prep() {
	f.once.Do(func() { f.compile() })
}

func constVal(c *ssa.Const) Value {
	t := rtype(c.Type())
	if c.Value == nil {
		return zeroVal(t)
	}
	switch t.kind {
	case KBool:
		if constant.BoolVal(c.Value) {
			return Value{N: 1}
		}
		return Value{}
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(t.w)}
	case KFloat:
		fl, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			return Value{N: uint64(math.Float32bits(float32(fl)))}
		}
		return Value{N: math.Float64bits(fl)}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case KUnsafe, KPtr:
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return Value{N: uint64(i)}
	case KIface:
		return Value{}
	}
	panic(fmt.Sprintf("constVal %v %v", c, t))
}

func (f *Func) operand(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, val: constVal(v)}
	case *ssa.Global:
		return opnd{kind: 2, idx: mach.global(v)}
	case *ssa.Function:
		return opnd{kind: 1, val: Value{P: &Closure{fn: mach.fnOf(v)}}}
	case *ssa.Builtin:
		return opnd{kind: 1}
	}
	r, ok := f.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), f.name))
	}
	return opnd{kind: 0, idx: r}
}

func isRepoPkg(path string) bool {
	return strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, modPath+"/internal/vrt") && !strings.HasPrefix(path, modPath+"/internal/vmodel")
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// fallback is the function run when an intrinsic declines.
func (f *Func) fallback() *Func {
	if f.fall != nil {
		return f.fall
	}
	f.fmu.Lock()
	defer f.fmu.Unlock()
	if f.fall == nil {
		if r, ok := mach.models[f.name]; ok && r != nil {
			x := mach.fnOf(r)
			x.prep()
			f.fall = x
		} else {
			x := &Func{fn: f.fn, id: int(atomic.AddInt32(&mach.nfuncs, 1)), name: f.name + "!body"}
			x.once.Do(x.compile)
			f.fall = x
		}
	}
	return f.fall
}

// Building, binding and reporting on a TypeScript program is the compiler's own
// affair: while a goroutine is in one of these, no scheduling choices are made.
var atomicFns = map[string]bool{
	tsgo + "compiler.NewProgram":                                                   true,
	"(*" + tsgo + "compiler.Program).BindSourceFiles":                              true,
	"(*" + tsgo + "compiler.Program).GetProgramDiagnostics":                        true,
	"(*" + tsgo + "compiler.Program).GetSemanticDiagnosticsWithoutNoEmitFiltering": true,
	"(*" + tsgo + "compiler.Program).GetSyntacticDiagnostics":                      true,
	"(*" + tsgo + "compiler.Program).ForEachCheckerParallel":                       true,
	tsgo + "tsoptions.GetParsedCommandLineOfConfigFile":                            true,
	tsgo + "tsoptions.GetParsedCommandLineOfConfigFilePath":                        true,
}

const tsgo = "github.com/microsoft/typescript-go/internal/"

func (f *Func) compile() {
	fn := f.fn
	f.pkg = pkgOf(fn)
	f.inRepo = isRepoPkg(f.pkg)
	f.atomic = atomicFns[f.name]
	if f.inRepo && !strings.Contains(f.pkg, "/internal/v") {
		of := fn
		for of.Origin() != nil && of.Origin() != of {
			of = of.Origin()
		}
		pos := of.Pos()
		for o := of; !pos.IsValid() && o != nil; o = o.Parent() {
			pos = o.Pos()
		}
		f.ordered = !strings.HasPrefix(filepath.Base(mach.l.Prog.Fset.Position(pos).Filename), "zz_")
	}
	if rs := fn.Signature.Results(); rs.Len() == 1 {
		f.res = rtype(rs.At(0).Type())
	} else if rs.Len() > 1 {
		f.res = rtype(rs)
	}
	r, ok := mach.repl[f.name]
	if !ok && fn.Origin() != nil {
		r, ok = mach.repl[fn.String()]
	}
	if ok && r != fn {
		f.replace = mach.fnOf(r)
		f.replace.prep()
		return
	}
	if in, ok := intrinsics[f.name]; ok {
		f.intr = in
		return
	}
	if r, ok := mach.models[f.name]; ok && r != fn {
		if fn.TypeArgs() != nil || (fn.Origin() != nil && fn.Origin() != fn) {
			r = instantiateModel(r, fn)
		}
		if r != nil {
			f.replace = mach.fnOf(r)
			f.replace.prep()
			return
		}
	}
	if fn.Blocks == nil {
		// linkname?
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			if tgt, ok := mach.l.Links[fn.Object().Pkg().Path()+"."+fn.Name()]; ok {
				if in, ok := intrinsics[tgt]; ok {
					f.intr = in
					return
				}
				if t := mach.resolveSym(tgt); t != nil && t != fn {
					f.replace = mach.fnOf(t)
					f.replace.prep()
					return
				}
			}
		}
		f.noBody = f.name
		return
	}
	f.regOf = map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { f.regOf[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	f.nparam = n
	for _, p := range fn.FreeVars {
		add(p)
	}
	f.nfree = n - f.nparam
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.nregs = n
	bm := map[*ssa.BasicBlock]*cblock{}
	mk := func(b *ssa.BasicBlock) *cblock {
		if c, ok := bm[b]; ok {
			return c
		}
		c := &cblock{idx: b.Index}
		bm[b] = c
		return c
	}
	for _, b := range fn.Blocks {
		f.blocks = append(f.blocks, mk(b))
	}
	if fn.Recover != nil {
		f.recov = mk(fn.Recover)
	}
	all := fn.Blocks
	for _, b := range all {
		c := bm[b]
		for _, s := range b.Succs {
			c.succs = append(c.succs, bm[s])
		}
		for _, p := range b.Preds {
			c.preds = append(c.preds, p.Index)
		}
	}
	for _, b := range all {
		c := bm[b]
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ps := phiSrc{dst: f.regOf[p], t: rtype(p.Type())}
				for _, e := range p.Edges {
					ps.src = append(ps.src, f.operand(e))
				}
				c.phis = append(c.phis, ps)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			code := f.instr(in, c)
			c.code = append(c.code, code)
			c.ins = append(c.ins, in)
			f.ninstr++
		}
	}
	f.topo()
}

// topo computes a topological order of the blocks if the CFG is acyclic.
func (f *Func) topo() {
	state := make([]int, len(f.blocks))
	var order []*cblock
	cyc := false
	var visit func(b *cblock)
	visit = func(b *cblock) {
		state[b.idx] = 1
		for _, s := range b.succs {
			if state[s.idx] == 1 {
				cyc = true
			} else if state[s.idx] == 0 {
				visit(s)
			}
		}
		state[b.idx] = 2
		order = append(order, b)
	}
	visit(f.blocks[0])
	if cyc {
		return
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	f.order = order
}

func (m *Machine) resolveSym(sym string) *ssa.Function {
	// forms: pkg.Name, pkg.(*T).M, pkg.T.M
	if i := strings.Index(sym, ".(*"); i >= 0 {
		pkg, rest := sym[:i], sym[i+3:]
		j := strings.Index(rest, ").")
		if j < 0 {
			return nil
		}
		return m.method(pkg, rest[:j], rest[j+2:], true)
	}
	slash := strings.LastIndex(sym, "/")
	d := strings.Index(sym[slash+1:], ".")
	if d < 0 {
		return nil
	}
	pkg, name := sym[:slash+1+d], sym[slash+1+d+1:]
	sp := m.l.ByPath[pkg]
	if sp == nil {
		return nil
	}
	if k := strings.Index(name, "."); k >= 0 {
		return m.method(pkg, name[:k], name[k+1:], false)
	}
	return sp.Func(name)
}

func (m *Machine) method(pkg, typ, name string, ptr bool) *ssa.Function {
	sp := m.l.ByPath[pkg]
	if sp == nil {
		return nil
	}
	tn := sp.Type(typ)
	if tn == nil {
		return nil
	}
	var T types.Type = tn.Type()
	if ptr {
		T = types.NewPointer(T)
	}
	sel := m.l.Prog.MethodSets.MethodSet(T).Lookup(sp.Pkg, name)
	if sel == nil {
		return nil
	}
	return m.l.Prog.MethodValue(sel)
}

func (f *Func) posOf(in ssa.Instruction) token.Pos { return in.Pos() }

func instantiateModel(m, fn *ssa.Function) *ssa.Function { return nil }
