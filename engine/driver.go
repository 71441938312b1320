package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Harness is one entry point of a property.
type Harness struct {
	Name   string
	Pkg    string
	Fn     *ssa.Function
	Opts   map[string]string
	Must   []string
	Doc    string
	Budget float64
}

func (h *Harness) num(k string, d int) int {
	if s, ok := h.Opts[k]; ok {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return d
}

var errFileRE = regexp.MustCompile(`(?m)([^\s:]+\.go):\d+`)

// discover collects harness functions and model replacements.
func discover(l *Loaded, verif string) (hs []*Harness, repl map[string]string) {
	repl = map[string]string{}
	hfiles := map[string]bool{}
	for virt, real := range l.Overlay {
		if strings.HasPrefix(real, filepath.Join(verif, "harness")+"/") {
			hfiles[virt] = true
		}
	}
	for _, p := range l.AllPkgs {
		for _, f := range p.Syntax {
			fname := p.Fset.Position(f.Pos()).Filename
			if !hfiles[fname] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//vrt:replace ") {
							repl[strings.TrimSpace(strings.TrimPrefix(c.Text, "//vrt:replace "))] = p.PkgPath + "." + fd.Name.Name
						}
					}
				}
				if !strings.HasPrefix(fd.Name.Name, "Verif_") {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Pkg: p.PkgPath, Opts: map[string]string{}}
				if fd.Doc != nil {
					var doc []string
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//vrt:opt ") {
							for _, kv := range strings.Fields(strings.TrimPrefix(c.Text, "//vrt:opt ")) {
								k, v, _ := strings.Cut(kv, "=")
								h.Opts[k] = v
							}
						} else if strings.HasPrefix(c.Text, "//vrt:") {
						} else {
							doc = append(doc, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
						}
					}
					h.Doc = strings.Join(doc, " ")
				}
				if m := h.Opts["must"]; m != "" {
					h.Must = strings.Split(m, ",")
				}
				h.Fn = l.ByPath[p.PkgPath].Func(fd.Name.Name)
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool {
		a, b := hs[i], hs[j]
		if a.num("prio", 5) != b.num("prio", 5) {
			return a.num("prio", 5) < b.num("prio", 5)
		}
		return a.Pkg+a.Name < b.Pkg+b.Name
	})
	return
}

func newMachine(l *Loaded, repl map[string]string) *Machine {
	l.Prog.Build()
	m := &Machine{l: l, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, models: map[string]*ssa.Function{}, repl: map[string]*ssa.Function{}}
	vm := l.ByPath[vmPath]
	for std, name := range modelNames {
		if name == "" || vm == nil {
			continue
		}
		if f := vm.Func(name); f != nil {
			m.models[std] = f
		}
	}
	for tgt, src := range repl {
		i := strings.LastIndex(src, ".")
		if p := l.ByPath[src[:i]]; p != nil {
			if f := p.Func(src[i+1:]); f != nil {
				m.repl[tgt] = f
			}
		}
	}
	mach = m
	return m
}

func rtErrType(l *Loaded) *RType {
	if p := l.ByPath[vmPath]; p != nil {
		if t := p.Type("RuntimeError"); t != nil {
			return rtype(t.Type())
		}
	}
	return rtype(types.Typ[types.String])
}

// knownFindings reads the committed list; only "finding" entries suppress.
func knownFindings(verif, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "finding: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(ln, "finding: property="+prop+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "id=") {
			out[strings.TrimPrefix(f[0], "id=")] = f[1]
		}
	}
	return out
}

type nativeItem struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Known   map[string]bool   `json:"known"`
}
type nativeResult struct {
	Obs     []string `json:"obs"`
	Reach   []string `json:"reach"`
	Fail    []string `json:"fail"`
	Panic   string   `json:"panic"`
	Stopped string   `json:"stopped"`
	Crash   string   `json:"crash,omitempty"`
	Ran     bool     `json:"-"`
}

// builds still running, so that an abandoned one can be ended
var nativePids sync.Map

func killNative() {
	nativePids.Range(func(k, _ any) bool { syscall.Kill(-k.(int), syscall.SIGKILL); return true })
}

// nativeBuild compiles a test binary that replays harnesses of one package.
func nativeBuild(l *Loaded, repo, pkg string, hs []*Harness, timeout time.Duration) (string, error) {
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	dir := filepath.Join(repo, rel)
	var names []string
	pkgName := ""
	for _, h := range hs {
		if h.Pkg == pkg {
			names = append(names, h.Name)
			pkgName = h.Fn.Pkg.Pkg.Name()
		}
	}
	tag := strings.ReplaceAll(rel, "/", "__")
	tf := filepath.Join(l.Work, tag+"_zz_vrt_test.go")
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s/internal/vrt\"\n)\n\nfunc TestVrtBatch(t *testing.T) {\n\tvrt.Main(map[string]func(){\n", pkgName, modPath)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, v := range l.Overlay {
		ov[k] = v
	}
	if ents, err := os.ReadDir(dir); err == nil {
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				ov[filepath.Join(dir, e.Name())] = ""
			}
		}
	}
	ov[filepath.Join(dir, "zz_vrt_test.go")] = tf
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(l.Work, tag+"_overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(l.Work, tag+".test")
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "nice", "-n", "19", "/opt/veriftools/go1.26.10/bin/go", "test", "-c", "-vet=off", "-overlay="+of, "-modfile="+l.Modfile, "-tags=noasm,purego", "-o", bin, "./"+rel)
	cmd.Dir = repo
	cmd.Env = goEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Start()
	if err == nil {
		nativePids.Store(cmd.Process.Pid, true)
		err = cmd.Wait()
		nativePids.Delete(cmd.Process.Pid)
	}
	if err != nil {
		return "", fmt.Errorf("native build of %s: %v\n%s", pkg, err, out.String())
	}
	return bin, nil
}

func nativeRun(work, bin, tier string, items []nativeItem, timeout time.Duration) ([]nativeResult, error) {
	d, err := os.MkdirTemp(work, "native")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	in, outf := filepath.Join(d, "in.json"), filepath.Join(d, "out.json")
	b, _ := json.Marshal(items)
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=^TestVrtBatch$", "-test.timeout="+timeout.String())
	cmd.Dir = d
	cmd.Env = append(goEnv(), "VRT_BATCH="+in, "VRT_OUT="+outf, "VERIF_TIER="+tier, "GOMEMLIMIT=4GiB")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Run()
	ob, rerr := os.ReadFile(outf)
	if rerr != nil {
		if len(items) == 1 {
			s := buf.String()
			if i := strings.Index(s, "panic:"); i >= 0 {
				s = s[i:]
			}
			if len(s) > 1500 {
				s = s[:1500]
			}
			if ctx.Err() != nil {
				s = "timeout: " + s
			}
			return []nativeResult{{Crash: s, Ran: true}}, nil
		}
		// one item killed the process: run them one by one
		var all []nativeResult
		for _, it := range items {
			r, err := nativeRun(work, bin, tier, []nativeItem{it}, timeout)
			if err != nil {
				return nil, err
			}
			all = append(all, r...)
		}
		return all, nil
	}
	var rs []nativeResult
	if err := json.Unmarshal(ob, &rs); err != nil {
		return nil, err
	}
	for i := range rs {
		rs[i].Ran = true
	}
	return rs, nil
}

type hreport struct {
	Name, Pkg, Doc       string
	Paths, SymPaths      int64
	Assumed, Asserts     int64
	Choices              int64
	Unsupported, Bounds  map[string]int
	Internal             map[string]int
	Unknown              int64
	Queries, Sat, Unsat  int64
	CacheHits            int64
	Domain               int64
	Merges               int64
	SolverS, WallS       float64
	Exhaustive           bool
	Pending              int
	Reached              map[string]int64
	Missing              []string
	Steps, Decisions     int64
	MaxDepth             int
	Known                map[string]string
	Violations           []*Violation
	Samples              []PathSample
	Funcs                map[string]int64
	Validated, Disagreed int
	Concurrent           bool
}

func run1(l *Loaded, h *Harness, budget time.Duration, tier int, seed int64, workers int, known map[string]string, debug bool, pin []dec) *hreport {
	ex := &Explorer{harness: h.Name, fn: mach.fnOf(h.Fn), deadline: time.Now().Add(budget), solverTimeoutMs: h.num("solver", 20000),
		maxPre: h.num("pre", 2), ckpt: h.num("ckpt", 0) > 0, maxPaths: int64(h.num("paths", 0)), maxSteps: int64(h.num("steps", defaultSteps(h))), seed: seed, rtErrT: rtErrType(l),
		tier: tier, knownList: map[string]bool{}, maxSamples: 24, debug: debug, pin: pin}
	if os.Getenv("SYMGO_NOMERGE") != "" {
		ex.noMerge = true
	}
	for k := range known {
		ex.knownList[k] = true
	}
	t0 := time.Now()
	ex.run(workers)
	r := &hreport{Name: h.Name, Pkg: h.Pkg, Doc: h.Doc, Paths: ex.paths, SymPaths: ex.symPaths, Assumed: ex.assumed, Asserts: ex.asserts, Choices: ex.choices,
		Unsupported: ex.unsup, Bounds: ex.bounds, Internal: ex.internal, Unknown: ex.unknown, Queries: ex.queries, Sat: ex.sat, Unsat: ex.unsat, CacheHits: ex.cacheHits, Domain: ex.domain, Merges: ex.merges,
		SolverS: ex.solverTime.Seconds(), WallS: time.Since(t0).Seconds(), Pending: ex.pending, Reached: ex.reached, Steps: ex.totalSteps, Decisions: ex.decisions,
		MaxDepth: ex.maxDepth, Known: ex.known, Violations: ex.violations, Samples: ex.samples, Funcs: map[string]int64{}}
	r.Exhaustive = !ex.dead && ex.pending == 0 && len(ex.unsup) == 0 && len(ex.bounds) == 0 && len(ex.internal) == 0 && ex.unknown == 0 && len(ex.violations) == 0
	for f, n := range ex.fnSteps {
		if f.inRepo || strings.Contains(f.pkg, "typescript-go") {
			if strings.Contains(f.name, ".Verif_") {
				continue
			}
			r.Funcs[f.name] += n
		}
	}
	if os.Getenv("SYMGO_PROF") != "" {
		var fs []*Func
		for f := range ex.fnSteps {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return ex.fnSteps[fs[i]] > ex.fnSteps[fs[j]] })
		for i, f := range fs {
			if i < 40 {
				fmt.Fprintf(os.Stderr, "   prof %12d %s\n", ex.fnSteps[f], f.name)
			}
		}
	}
	dumpChoices()
	for _, m := range h.Must {
		if ex.reached[m] == 0 {
			r.Missing = append(r.Missing, m)
		}
	}
	return r
}

func checkCmd(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "property id")
	only := fs.String("harness", "", "regexp of harness names")
	tierS := fs.String("tier", "quick", "")
	budget := fs.Float64("budget", 0, "total seconds")
	nonative := fs.Bool("nonative", false, "skip native runs")
	verbose := fs.Bool("v", false, "")
	debug := fs.Bool("debug", false, "")
	workers := fs.Int("j", 8, "")
	replay := fs.String("replay", "", "replay file")
	noev := fs.Bool("noevidence", false, "")
	fs.Parse(args)
	start := time.Now()
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	} else {
		*tierS = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	if *budget == 0 {
		*budget = 75
		if tier == 1 {
			*budget = 600
		}
	}
	work, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	hdir := filepath.Join(*verif, "harness", *prop)
	dirs := []string{hdir}
	if b, err := os.ReadFile(filepath.Join(hdir, "shared")); err == nil {
		for _, s := range strings.Fields(string(b)) {
			dirs = append(dirs, filepath.Join(*verif, "harness", s))
		}
	}
	var warnings []string
	dropped := map[string]bool{}
	var l *Loaded
	for try := 0; ; try++ {
		l, err = prepare(*verif, *repo, work, dirs)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR", err)
			return 2
		}
		for v, real := range l.Overlay {
			if dropped[real] {
				delete(l.Overlay, v)
			}
		}
		pats := map[string]bool{modPath + "/internal/vmodel": true}
		hv := map[string]string{}
		for v, real := range l.Overlay {
			if strings.HasPrefix(real, filepath.Join(*verif, "harness")+"/") {
				rel, _ := filepath.Rel(*repo, filepath.Dir(v))
				pats["./"+rel] = true
				hv[v] = real
			}
		}
		if len(hv) == 0 {
			fmt.Fprintln(os.Stderr, "ERROR: no harness of", *prop, "applies to this tree")
			return 2
		}
		var ps []string
		for p := range pats {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		err = l.load(*repo, ps)
		if err == nil {
			break
		}
		// a harness that no longer type-checks is dropped, the rest runs
		bad := 0
		for _, m := range errFileRE.FindAllStringSubmatch(err.Error(), -1) {
			f := m[1]
			if !filepath.IsAbs(f) {
				f = filepath.Join(*repo, f)
			}
			if real, ok := hv[f]; ok && !dropped[real] {
				dropped[real] = true
				bad++
			}
		}
		if bad == 0 || try > 6 {
			fmt.Fprintln(os.Stderr, "ERROR load:", err)
			return 2
		}
		warnings = append(warnings, "harness file dropped: "+err.Error())
		fmt.Fprintln(os.Stderr, "warning: harness does not type-check against this tree:", err)
	}
	hs, repl := discover(l, *verif)
	newMachine(l, repl)
	loadS := time.Since(start).Seconds()
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, %d harnesses\n", loadS, len(hs))
	}
	known := knownFindings(*verif, *prop)
	kset := map[string]bool{}
	for k := range known {
		kset[k] = true
	}

	if *replay != "" {
		return replayCmd(l, *repo, *replay, hs, kset)
	}

	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var sel []*Harness
	var wsum float64
	for _, h := range hs {
		if re != nil && !re.MatchString(h.Name) {
			continue
		}
		if tier == 0 && h.Opts["tier"] == "thorough" {
			continue
		}
		h.Budget = float64(h.num("weight", 10))
		wsum += h.Budget
		sel = append(sel, h)
	}
	// native builds run beside the exploration
	builds := map[string]chan buildRes{}
	if !*nonative {
		for _, h := range sel {
			if builds[h.Pkg] == nil && h.Opts["native"] != "off" {
				ch := make(chan buildRes, 1)
				builds[h.Pkg] = ch
				pkg := h.Pkg
				go func() {
					var use []*Harness
					for _, x := range sel {
						if x.Opts["native"] != "off" {
							use = append(use, x)
						}
					}
					b, err := nativeBuild(l, *repo, pkg, use, 400*time.Second)
					ch <- buildRes{b, err}
				}()
			}
		}
	}
	built := map[string]buildRes{}
	getBuild := func(pkg string) buildRes {
		if b, ok := built[pkg]; ok {
			return b
		}
		ch := builds[pkg]
		if ch == nil {
			return buildRes{err: fmt.Errorf("native replay off")}
		}
		b := <-ch
		built[pkg] = b
		return b
	}
	var reports []*hreport
	remaining := *budget
	code := 0
	vioN := 0
	evDir := filepath.Join(*verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	if old, err := filepath.Glob(filepath.Join(evDir, *prop+"-replay-*.json")); err == nil && !*noev {
		for _, f := range old {
			os.Remove(f)
		}
	}
	for _, h := range sel {
		b := remaining * h.Budget / wsum
		t0 := time.Now()
		r := run1(l, h, time.Duration(b*float64(time.Second)), tier, seed, *workers, known, *debug, nil)
		el := time.Since(t0).Seconds()
		remaining -= el
		wsum -= h.Budget
		if remaining < 1 {
			remaining = 1
		}
		if wsum < 1 {
			wsum = 1
		}
		reports = append(reports, r)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%s: paths=%d (sym %d) assumed=%d asserts=%d queries=%d (sat %d unsat %d cache %d dom %d) unknown=%d solver=%.1fs wall=%.1fs pending=%d exhaustive=%v merges=%d steps=%d depth=%d\n",
				h.Name, r.Paths, r.SymPaths, r.Assumed, r.Asserts, r.Queries, r.Sat, r.Unsat, r.CacheHits, r.Domain, r.Unknown, r.SolverS, r.WallS, r.Pending, r.Exhaustive, r.Merges, r.Steps, r.MaxDepth)
			for k, n := range r.Unsupported {
				fmt.Fprintf(os.Stderr, "   unsupported x%d: %s\n", n, k)
			}
			for k, n := range r.Bounds {
				fmt.Fprintf(os.Stderr, "   bound x%d: %s\n", n, k)
			}
			for k, n := range r.Internal {
				fmt.Fprintf(os.Stderr, "   internal x%d: %s\n", n, k)
			}
			fmt.Fprintf(os.Stderr, "   reached %v missing %v known %v\n", r.Reached, r.Missing, r.Known)
			for _, v := range r.Violations {
				fmt.Fprintf(os.Stderr, "   candidate %s: %s inputs=%v\n      %s\n", v.Kind, v.Msg, v.Inputs, strings.Join(v.Trace, "\n      "))
			}
		}
		for id, w := range r.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (witness %s)\n", *prop, id, known[id], w)
		}
		for _, v := range r.Violations {
			ok, nres, why := confirm(l, h, v, r, getBuild, kset, *tierS, tier, seed, known, *nonative)
			if !ok {
				warnings = append(warnings, fmt.Sprintf("%s: counterexample %q did not reproduce (%s); not reported", h.Name, v.Msg, why))
				fmt.Fprintf(os.Stderr, "inconclusive: %s: %s: %s\n", h.Name, v.Msg, why)
				r.Exhaustive = false
				continue
			}
			vioN++
			path := filepath.Join(evDir, fmt.Sprintf("%s-replay-%d.json", *prop, vioN))
			rb, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": h.Name, "package": h.Pkg, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs, "order": v.Order,
				"observed": v.Obs, "schedule": v.Sched, "stack": v.Trace, "native": nres, "how": why, "rerun": fmt.Sprintf("%s/check.sh %s replay %s", *verif, *prop, path)}, "", " ")
			os.WriteFile(path, rb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  %s: %s: %s\n  inputs: %v\n", h.Name, v.Kind, v.Msg, v.Inputs)
			code = 1
		}
	}
	// differential validation: sampled paths, run natively
	validated, disagreed := 0, 0
	var disagree []string
	// the quick tier waits a short while only for the native build
	var grace <-chan time.Time
	if tier == 0 {
		grace = time.After(20 * time.Second)
	}
	defer killNative()
	poll := func(pkg string) (buildRes, bool) {
		if b, ok := built[pkg]; ok {
			return b, true
		}
		ch := builds[pkg]
		if ch == nil || grace == nil {
			return getBuild(pkg), true
		}
		select {
		case b := <-ch:
			built[pkg] = b
			return b, true
		case <-grace:
			c := make(chan time.Time)
			close(c)
			grace = c
			return buildRes{}, false
		}
	}
	if !*nonative && code == 0 {
		for i, r := range reports {
			h := sel[i]
			if h.Opts["native"] == "off" || len(r.Samples) == 0 {
				continue
			}
			nb, ok := poll(h.Pkg)
			if !ok {
				warnings = append(warnings, "sampled paths of "+h.Name+" were not compared with the compiled code in this run: its native build was not ready (the thorough tier waits for it)")
				continue
			}
			if nb.err != nil {
				warnings = append(warnings, nb.err.Error())
				continue
			}
			var items []nativeItem
			for _, s := range r.Samples {
				items = append(items, nativeItem{h.Name, s.Inputs, kset})
			}
			rs, err := nativeRun(work, nb.bin, *tierS, items, 60*time.Second)
			if err != nil || len(rs) != len(items) {
				warnings = append(warnings, fmt.Sprintf("native run of %s failed: %v", h.Name, err))
				continue
			}
			for k, s := range r.Samples {
				why := ""
				n := rs[k]
				switch {
				case n.Crash != "" || n.Panic != "":
					why = "native crash: " + n.Panic + n.Crash
				case len(n.Fail) > 0:
					why = "native assertion failure: " + strings.Join(n.Fail, "; ")
				case n.Stopped != "":
					why = "native run stopped: " + n.Stopped
				case !s.Conc && strings.Join(n.Obs, "\n") != strings.Join(s.Obs, "\n"):
					why = fmt.Sprintf("observations differ: native %q, symbolic %q", n.Obs, s.Obs)
				}
				if why == "" {
					r.Validated++
					validated++
				} else {
					r.Disagreed++
					disagreed++
					if len(disagree) < 10 {
						disagree = append(disagree, fmt.Sprintf("%s %v: %s", h.Name, s.Inputs, why))
					}
				}
			}
		}
	}
	for _, d := range disagree {
		fmt.Fprintln(os.Stderr, "DISAGREE", d)
	}
	var totalPaths int64
	for _, r := range reports {
		totalPaths += r.Paths
	}
	if !*noev {
		writeEvidence(evDir, *prop, *tierS, seed, reports, warnings, validated, disagreed, disagree, vioN, time.Since(start).Seconds(), loadS, repl)
	}
	var tot, ex int
	for _, r := range reports {
		tot++
		if r.Exhaustive {
			ex++
		}
		for _, m := range r.Missing {
			fmt.Fprintf(os.Stderr, "warning: %s did not reach %q\n", r.Name, m)
		}
	}
	fmt.Printf("%s %s: %d harnesses (%d exhaustive within bounds), %d paths, %d violations, %d/%d sampled paths confirmed natively, %.1fs\n", *prop, *tierS, tot, ex, totalPaths, vioN, validated, validated+disagreed, time.Since(start).Seconds())
	if code == 0 && totalPaths == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: nothing was explored")
		return 2
	}
	return code
}

type buildRes struct {
	bin string
	err error
}

// confirm replays a counterexample: natively for sequential harnesses, by a
// pinned re-execution of the real code under the recorded schedule otherwise.
func confirm(l *Loaded, h *Harness, v *Violation, r *hreport, get func(string) buildRes, kset map[string]bool, tierS string, tier int, seed int64, known map[string]string, nonative bool) (bool, *nativeResult, string) {
	if !nonative && h.Opts["native"] != "off" && !v.Conc {
		b := get(h.Pkg)
		if b.err != nil {
			return false, nil, "native build failed: " + b.err.Error()
		}
		rs, err := nativeRun(l.Work, b.bin, tierS, []nativeItem{{h.Name, v.Inputs, kset}}, 60*time.Second)
		if err != nil {
			return false, nil, err.Error()
		}
		n := rs[0]
		if v.Kind == "assert" {
			if len(n.Fail) > 0 || n.Panic != "" || n.Crash != "" {
				return true, &n, "native replay fails: " + strings.Join(n.Fail, "; ") + n.Panic + n.Crash
			}
			return false, &n, "native replay passes"
		}
		if n.Panic != "" || n.Crash != "" || len(n.Fail) > 0 {
			return true, &n, "native replay: " + n.Panic + n.Crash + strings.Join(n.Fail, "; ")
		}
		return false, &n, "native replay does not panic"
	}
	// deterministic re-execution, merging off, along the recorded decisions
	h2 := *h
	rr := run1(l, &h2, 60*time.Second, tier, seed, 1, known, false, v.Decs)
	for _, x := range rr.Violations {
		if x.Kind == v.Kind {
			return true, nil, "re-executed along the recorded schedule: " + x.Msg
		}
	}
	return false, nil, "pinned re-execution passes"
}

func replayCmd(l *Loaded, repo, file string, hs []*Harness, kset map[string]bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp struct {
		Harness, Package string
		Inputs           map[string]string
	}
	json.Unmarshal(b, &rp)
	bin, err := nativeBuild(l, repo, rp.Package, hs, 400*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rs, err := nativeRun(l.Work, bin, "quick", []nativeItem{{rp.Harness, rp.Inputs, kset}}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(rs[0], "", " ")
	fmt.Println(string(o))
	if len(rs[0].Fail) > 0 || rs[0].Panic != "" || rs[0].Crash != "" {
		return 1
	}
	return 0
}

func writeEvidence(dir, prop, tier string, seed int64, reports []*hreport, warnings []string, validated, disagreed int, disagree []string, vioN int, wall, loadS float64, repl map[string]string) {
	funcs := map[string]int64{}
	var states, trans, q, sat, unsat, unk, asserts, symp, assumed, cache, merges, domn int64
	var solver float64
	exh := len(reports) > 0
	var hsum []map[string]any
	var samples []any
	assump := []string{
		"Go semantics as encoded by the SSA interpreter of /verif/engine (validated on sampled paths against the compiled code)",
		"external packages with assembly or runtime internals run as the Go models of /verif/models/vmodel",
	}
	for _, r := range reports {
		for f, n := range r.Funcs {
			funcs[f] += n
		}
		states += r.Paths
		trans += r.Decisions
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		asserts += r.Asserts
		symp += r.SymPaths
		assumed += r.Assumed
		cache += r.CacheHits
		domn += r.Domain
		merges += r.Merges
		solver += r.SolverS
		exh = exh && r.Exhaustive
		m := map[string]any{"harness": r.Name, "bounds": r.Doc, "paths": r.Paths, "paths_with_symbolic_constraints": r.SymPaths, "paths_cut_by_assumptions": r.Assumed,
			"assertions_discharged": r.Asserts, "queries": r.Queries, "unsat": r.Unsat, "sat": r.Sat, "unknown": r.Unknown, "solver_s": round2(r.SolverS), "wall_s": round2(r.WallS),
			"exhaustive_within_bounds": r.Exhaustive, "unexplored_prefixes": r.Pending, "reached": r.Reached, "natively_confirmed_paths": r.Validated}
		if len(r.Unsupported) > 0 {
			m["outside_the_encoding"] = r.Unsupported
		}
		if len(r.Bounds) > 0 {
			m["bound_hits"] = r.Bounds
		}
		if len(r.Internal) > 0 {
			m["engine_errors"] = r.Internal
		}
		if len(r.Missing) > 0 {
			m["not_reached"] = r.Missing
		}
		if len(r.Known) > 0 {
			m["known_findings_hit"] = r.Known
		}
		hsum = append(hsum, m)
		for i, s := range r.Samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.Name, "inputs": s.Inputs, "observed": s.Obs, "reached": s.Reach, "path_constraints": s.NPC})
		}
	}
	for t, s := range repl {
		assump = append(assump, "environment stub: "+t+" is replaced by "+s)
	}
	sort.Strings(assump[2:])
	assump = append(assump, warnings...)
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Slice(fl, func(i, j int) bool {
		a, b := strings.Contains(fl[i], "tsgolint"), strings.Contains(fl[j], "tsgolint")
		if a != b {
			return a
		}
		return fl[i] < fl[j]
	})
	nf := len(fl)
	if len(fl) > 150 {
		fl = fl[:150]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round2(wall), "violations": vioN, "assumptions": assump,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":                     "states: completed symbolic paths of the real code; transitions: branch, choice and schedule decisions on them; each assertion is decided by z3 for all values of a path",
			"functions_encoded":               fl,
			"functions_encoded_count":         nf,
			"harnesses":                       hsum,
			"assertions_discharged":           asserts,
			"smt_queries":                     q,
			"smt_sat":                         sat,
			"smt_unsat":                       unsat,
			"smt_unknown":                     unk,
			"smt_cache_hits":                  cache,
			"feasibility_by_byte_domain":      domn,
			"if_conversions":                  merges,
			"solver_s":                        round2(solver),
			"load_and_encode_s":               round2(loadS),
			"paths_with_symbolic_constraints": symp,
			"paths_cut_by_assumptions":        assumed,
			"native_disagreements":            disagree,
			"exhaustive":                      exh,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

var _ = token.NoPos
var _ = packages.NeedName

// defaultSteps bounds the steps of a path; what comes before a checkpoint counts once.
func defaultSteps(h *Harness) int {
	if h.num("ckpt", 0) > 0 {
		return 1000000000
	}
	return 20000000
}
