// Package vp10 checks the process-wide cache of parsed source files.
package vp10

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/parser"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type request struct {
	opts ast.SourceFileParseOptions
	text string
	gone bool
}

func host(r request, cached bool) compiler.CompilerHost {
	fs := vfix.NewMemFS()
	if !r.gone {
		fs.Files[r.opts.FileName] = r.text
	}
	if cached {
		return utils.NewCachedFSCompilerHost("/p", fs, "/lib", nil, nil)
	}
	return utils.NewCompilerHost("/p", fs, "/lib", nil, nil)
}

// same: a and b parse alike.
func same(a, b *ast.Node) bool {
	if a.Kind != b.Kind || a.Pos() != b.Pos() || a.End() != b.End() {
		return false
	}
	var x, y []*ast.Node
	a.ForEachChild(func(n *ast.Node) bool { x = append(x, n); return false })
	b.ForEachChild(func(n *ast.Node) bool { y = append(y, n); return false })
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !same(x[i], y[i]) {
			return false
		}
	}
	return true
}

func judge(r request, sf *ast.SourceFile) {
	if r.gone {
		vrt.Assert(sf == nil, "a file that cannot be read has no source file")
		vrt.Reach("gone")
		return
	}
	vrt.Assert(sf != nil, "a readable file has a source file")
	vrt.Assert(sf.Text() == r.text, "the text is what the file holds now")
	vrt.Assert(sf.FileName() == r.opts.FileName, "the name is the requested one")
	vrt.Assert(sf.Path() == r.opts.Path, "the path is the requested one")
	vrt.Assert(sf.ParseOptions() == r.opts, "the options are the requested ones")
	kind := core.GetScriptKindFromFileName(r.opts.FileName)
	vrt.Assert(sf.ScriptKind == kind, "the language is that of the name")
	fresh := parser.ParseSourceFile(r.opts, r.text, kind)
	vrt.Assert((sf.ExternalModuleIndicator == nil) == (fresh.ExternalModuleIndicator == nil), "it is a module iff it would be parsed as one")
	vrt.Assert(len(sf.Diagnostics()) == len(fresh.Diagnostics()), "its syntax errors are those of the text")
	vrt.Assert(same(sf.AsNode(), fresh.AsNode()), "its tree is that of the text")
}

func pick(i string, n int) request {
	name := []string{"/p/a.tsx", "/p/a.ts", "/q/a.ts", "/p/a.js"}[vrt.Choice("name"+i, n)]
	r := request{opts: ast.SourceFileParseOptions{FileName: name, Path: tspath.Path(name)}}
	if vrt.Bool("lower" + i) {
		r.opts.Path = tspath.Path("/P" + name[2:])
	}
	r.opts.ExternalModuleIndicatorOptions = ast.ExternalModuleIndicatorOptions{JSX: vrt.Bool("jsx" + i), Force: vrt.Bool("force" + i)}
	return r
}

// Two requests after each other, from two hosts, with any of four names
// (different languages and directories), two paths and all module options, for
// one of three texts or a file that is gone: each is answered with a tree of
// the present text under the present name and options; the same request twice
// gives the same object.
//
//vrt:opt must=gone,equal,differ weight=20
func Verif_Options() {
	texts := []string{"let x;", "let y;", "<a/>;"}
	a, b := pick("1", 2), pick("2", 3+vrt.Tier())
	a.text = texts[vrt.Choice("text1", 3)]
	k := vrt.Choice("text2", 4)
	if k < 3 {
		b.text = texts[k]
	} else {
		b.gone = true
	}
	x := host(a, false).GetSourceFile(a.opts)
	y := host(b, true).GetSourceFile(b.opts)
	judge(a, x)
	judge(b, y)
	if a.opts == b.opts && a.text == b.text && !b.gone {
		vrt.Assert(x == y, "the same request is parsed once")
		vrt.Reach("equal")
	} else {
		vrt.Assert(x != y, "different requests have different trees")
		vrt.Reach("differ")
	}
}

// Two versions of one file with two symbolic bytes each (three thorough) out of
// a 1 ; / < and newline.
//
//vrt:opt must=equal,differ weight=30
func Verif_Texts() {
	n := 2 + vrt.Tier()
	t1, t2 := vrt.StrN("first", n), vrt.StrN("second", n)
	const set = "a1;/<\n"
	for _, t := range []string{t1, t2} {
		for i := 0; i < n; i++ {
			in := false
			for j := 0; j < len(set); j++ {
				in = vrt.Or(in, t[i] == set[j])
			}
			vrt.Assume(in)
		}
	}
	opts := ast.SourceFileParseOptions{FileName: "/p/a.ts", Path: "/p/a.ts"}
	a, b := request{opts: opts, text: "x" + t1}, request{opts: opts, text: "x" + t2}
	x := host(a, false).GetSourceFile(a.opts)
	y := host(b, false).GetSourceFile(b.opts)
	judge(a, x)
	judge(b, y)
	if a.text == b.text {
		vrt.Assert(x == y, "the same text is parsed once")
		vrt.Reach("equal")
	} else {
		vrt.Reach("differ")
	}
}

// Two goroutines ask for the same or another version of a file, in every
// schedule with two preemptions: both get what they asked for, the same object
// for the same request, without a data race.
//
//vrt:opt must=equal,differ weight=20 pre=2 native=off
func Verif_Parallel() {
	opts := ast.SourceFileParseOptions{FileName: "/p/a.ts", Path: "/p/a.ts"}
	a, b := request{opts: opts, text: "let x;"}, request{opts: opts, text: "let x;"}
	if vrt.Bool("changed") {
		b.text = "let y;"
	}
	if vrt.Bool("forced") {
		b.opts.ExternalModuleIndicatorOptions.Force = true
	}
	ha, hb := host(a, false), host(b, false)
	var x, y *ast.SourceFile
	done := make(chan bool)
	vrt.Race(true)
	vrt.Concurrent(2)
	go func() { x = ha.GetSourceFile(a.opts); done <- true }()
	go func() { y = hb.GetSourceFile(b.opts); done <- true }()
	<-done
	<-done
	vrt.Concurrent(0)
	judge(a, x)
	judge(b, y)
	if a.opts == b.opts && a.text == b.text {
		vrt.Assert(x == y, "the same request has one tree")
		vrt.Reach("equal")
	} else {
		vrt.Assert(x != y, "different requests have different trees")
		vrt.Reach("differ")
	}
}

// A host asked for two project references, each one of three configurations (one
// of them gone), by two goroutines at once or after each other, with one
// preemption (two thorough): each answer is that configuration as parsed, nothing for the missing
// one, and the same object for the same configuration.
//
//vrt:opt must=gone,equal,differ weight=20 native=off
func Verif_References() {
	fs := vfix.NewMemFS()
	fs.Files["/p/tsconfig.json"] = `{"files":["a.ts"]}`
	fs.Files["/p/q/tsconfig.json"] = `{"files":["b.ts"],"compilerOptions":{"strict":true}}`
	h := utils.NewCompilerHost("/p", fs, "/lib", nil, nil)
	names := []string{"/p/tsconfig.json", "/p/q/tsconfig.json", "/p/r/tsconfig.json"}
	i, j := vrt.Choice("first", 3), vrt.Choice("second", 3)
	var x, y *tsoptions.ParsedCommandLine
	if vrt.Bool("parallel") {
		done := make(chan bool)
		vrt.Race(true)
		vrt.Concurrent(1 + vrt.Tier())
		go func() { x = h.GetResolvedProjectReference(names[i], tspath.Path(names[i])); done <- true }()
		go func() { y = h.GetResolvedProjectReference(names[j], tspath.Path(names[j])); done <- true }()
		<-done
		<-done
		vrt.Concurrent(0)
	} else {
		x = h.GetResolvedProjectReference(names[i], tspath.Path(names[i]))
		y = h.GetResolvedProjectReference(names[j], tspath.Path(names[j]))
	}
	for k, c := range []*tsoptions.ParsedCommandLine{x, y} {
		n := i
		if k == 1 {
			n = j
		}
		if n == 2 {
			vrt.Assert(c == nil, "a missing configuration is no project")
			vrt.Reach("gone")
			continue
		}
		vrt.Assert(c != nil, "a configuration is a project")
		vrt.Assert(c.ConfigName() == names[n], "it is the requested configuration")
		vrt.Assert(len(c.FileNames()) == 1 && c.FileNames()[0] == []string{"/p/a.ts", "/p/q/b.ts"}[n], "it has the files of that configuration")
		vrt.Assert(c.CompilerOptions().Strict.IsTrue() == (n == 1), "it has the options of that configuration")
	}
	if i == j && i != 2 {
		vrt.Assert(x == y, "the same configuration is parsed once")
		vrt.Reach("equal")
	} else if i != j {
		vrt.Assert(x != y, "different configurations are different projects")
		vrt.Reach("differ")
	}
}
