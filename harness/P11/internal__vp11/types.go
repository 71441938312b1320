// Package vp11 checks what the linter says about type errors and broken configurations.
package vp11

import (
	"strconv"
	"strings"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// problem is one expected error: where it is in its statement and what it says.
type problem struct {
	syntax bool
	code   int
	at, n  int
	text   string
}

type stmt struct {
	src  string // # stands for a fresh letter
	errs []problem
}

var stmts = []stmt{
	{"let a#: number = '';", []problem{{false, 2322, 4, 2, "Type 'string' is not assignable to type 'number'."}}},
	{"let b# = ;", []problem{{true, 1109, 9, 1, "Expression expected."}}},
	{"// @ts-expect-error\nc#;", nil},
	{"// @ts-expect-error\nlet d# = 1;", []problem{{false, 2578, 0, 19, "Unused '@ts-expect-error' directive."}}},
	{"let e# = 1; let e# = 2;", []problem{{false, 2451, 4, 2, "Cannot redeclare block-scoped variable 'e#'."}, {false, 2451, 16, 2, "Cannot redeclare block-scoped variable 'e#'."}}},
	{"f#; (1 = 2);", []problem{{false, 2304, 0, 2, "Cannot find name 'f#'."}, {false, 2364, 5, 1, "The left-hand side of an assignment expression must be a variable or a property access."}}},
	{"let g# = 08;", []problem{{true, 1489, 9, 2, "Decimals with leading zeros are not allowed."}}},
	{"// @ts-ignore\nh#; h#;\nh#;", []problem{{false, 2304, 22, 2, "Cannot find name 'h#'."}}},
	{"let i# = 1;", nil},
	{"m#(;\nl#;", []problem{{true, 1005, 3, 1, "')' expected."}, {false, 2304, 0, 2, "Cannot find name 'm#'."}, {false, 2304, 5, 2, "Cannot find name 'l#'."}}},
}

type header struct {
	src     string
	nocheck bool
	errs    []problem
}

var headers = []header{
	{"", false, nil},
	{"// @ts-nocheck\n", true, nil},
	{"/// <reference path='./gone.ts'/>\n/// <reference types='nope'/>\n", false, []problem{{false, 6053, 21, 9, "File './gone.ts' not found."}, {false, 2688, 56, 4, "Cannot find type definition file for 'nope'."}}},
}

// file is a source with the errors it has, syntax errors and others apart.
type file struct {
	name, text string
	errs       [2][]diagnostic.Internal
}

func (f *file) add(base int, ps []problem, letter string, nocheck bool) {
	for _, p := range ps {
		if nocheck && !p.syntax {
			continue
		}
		k := 1
		if p.syntax {
			k = 0
		}
		f.errs[k] = append(f.errs[k], diagnostic.Internal{
			Range: core.NewTextRange(base+p.at, base+p.at+p.n), Id: "TS" + strconv.Itoa(p.code),
			Description: strings.ReplaceAll(p.text, "#", letter),
		})
	}
}

func build(name string, h header, pad string, list []stmt) *file {
	f := &file{name: name}
	f.add(0, h.errs, "", false)
	f.text = h.src
	for i, s := range list {
		f.text += pad
		letter := string(rune('a' + i))
		f.add(len(f.text), s.errs, letter, h.nocheck)
		f.text += strings.ReplaceAll(s.src, "#", letter) + "\n"
	}
	f.text += "export {};\n"
	return f
}

func expect(f *file, name string, syntax, semantic bool, got []diagnostic.Internal) int {
	n := 0
	for k, on := range []bool{syntax, semantic} {
		if !on {
			continue
		}
		for _, w := range f.errs[k] {
			// the next one about this file, of this kind
			for n < len(got) && *got[n].FilePath != name {
				n++
			}
			vrt.Assert(n < len(got), "every error of a listed file is reported")
			g := got[n]
			vrt.Assert(g.Id == w.Id, "with its code, in source order")
			vrt.Assert(g.Range == w.Range, "with its range")
			vrt.Assert(g.Description == w.Description, "with its message")
			n++
		}
	}
	return len(f.errs[0])*b2i(syntax) + len(f.errs[1])*b2i(semantic)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// seen is a rule that notes the files it runs on.
func seen(names *[]string) rule.Rule {
	return rule.Rule{Name: "seen", Run: func(ctx rule.RuleContext, _ any) rule.RuleListeners {
		*names = append(*names, ctx.SourceFile.FileName())
		return rule.RuleListeners{}
	}}
}

// lint runs the linter; the report of a run is all that is compared.
func lint(c vlint.Config, extra []string, progs map[string][]string, un []string, sup bool) (got []diagnostic.Internal, names []string, err error) {
	fs, _ := vlint.FS(c)
	for i := 0; i+1 < len(extra); i += 2 {
		fs.Files[extra[i]] = extra[i+1]
	}
	r := seen(&names)
	err = linter.RunLinter(linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/p",
		Workload: linter.Workload{Programs: progs, UnmatchedFiles: un},
		Workers:  1, FS: fs,
		SuppressProgramDiagnostics: sup,
		GetRulesForFile: func(f *ast.SourceFile) []linter.ConfiguredRule {
			return []linter.ConfiguredRule{{Name: r.Name, Run: func(ctx rule.RuleContext) rule.RuleListeners { return r.Run(ctx, nil) }}}
		},
		OnRuleDiagnostic:     func(d rule.RuleDiagnostic) {},
		OnInternalDiagnostic: func(d diagnostic.Internal) { got = append(got, d) },
		TypeErrors:           linter.TypeErrors{ReportSyntactic: c.Syntax, ReportSemantic: c.Semantic},
	})
	return
}

// One listed file of a header (none, @ts-nocheck, two missing references), a
// symbolic padding byte before each statement (blank, newline, semicolon) and
// two statements (three thorough) out of ten with syntax errors, type errors,
// suppressed ones and unused suppressions; syntactic and semantic errors asked
// for or not; in a configured project or not.
//
//vrt:opt must=syntactic,semantic,both,neither weight=30
func Verif_Errors() {
	h := headers[vrt.Choice("header", len(headers))]
	pad := vrt.StrN("padding", 1)
	vrt.Assume(vrt.Or(vrt.Or(pad[0] == ' ', pad[0] == '\n'), pad[0] == ';'))
	syntax, semantic := vrt.Bool("syntactic"), vrt.Bool("semantic")
	n := 2 + vrt.Tier()
	var list []stmt
	for i := 0; i < n; i++ {
		list = append(list, stmts[vrt.Choice("statement"+strconv.Itoa(i), len(stmts))])
	}
	f := build("a.ts", h, pad, list)
	progs, un := map[string][]string{"/p/tsconfig.json": {"/p/a.ts"}}, []string(nil)
	if vrt.Tier() > 0 && vrt.Bool("unconfigured") {
		progs, un = nil, []string{"/p/a.ts"}
	}
	got, names, err := lint(vlint.Config{Files: []string{"a.ts", f.text}, Syntax: syntax, Semantic: semantic}, nil, progs, un, false)
	vrt.Assert(err == nil, "errors in the source are no failure")
	want := expect(f, "/p/a.ts", syntax, semantic, got)
	vrt.Assert(len(got) == want, "nothing else is reported")
	vrt.Assert(len(names) == 1 && names[0] == "/p/a.ts", "the rules run all the same")
	vrt.Reach([]string{"neither", "syntactic", "semantic", "both"}[b2i(syntax)+2*b2i(semantic)])
}

// Three files of one project that use each other, any of them listed, another
// listed file outside of any project: the errors of the listed files are
// reported, with the kinds asked for, and no others.
//
//vrt:opt must=none,some weight=20
func Verif_Files() {
	texts := []string{
		"import {y} from './b'; let x: number = ''; let s = ;\nexport {x};",
		"import {x} from './a'; export let y: string = x;",
		"declare let q: nope;",
	}
	errs := [][2][]diagnostic.Internal{
		{{{Range: core.NewTextRange(51, 52), Id: "TS1109", Description: "Expression expected."}}, {{Range: core.NewTextRange(27, 28), Id: "TS2322", Description: "Type 'string' is not assignable to type 'number'."}}},
		{nil, {{Range: core.NewTextRange(34, 35), Id: "TS2322", Description: "Type 'number' is not assignable to type 'string'."}}},
		{nil, {{Range: core.NewTextRange(15, 19), Id: "TS2304", Description: "Cannot find name 'nope'."}}},
	}
	syntax, semantic := vrt.Bool("syntactic"), vrt.Bool("semantic")
	all := []string{"a.ts", "b.ts", "g.d.ts"}
	var list []string
	var fs []*file
	for i, n := range all {
		if vrt.Bool("listed " + n) {
			list = append(list, "/p/"+n)
			fs = append(fs, &file{name: "/p/" + n, errs: errs[i]})
		}
	}
	var un []string
	if vrt.Bool("outside") {
		un = []string{"/q/u.js"}
		fs = append(fs, &file{name: "/q/u.js", errs: [2][]diagnostic.Internal{{{Range: core.NewTextRange(7, 13), Id: "TS8010", Description: "Type annotations can only be used in TypeScript files."}}, nil}})
	}
	got, names, err := lint(vlint.Config{Files: []string{"a.ts", texts[0], "b.ts", texts[1], "g.d.ts", texts[2]}, Syntax: syntax, Semantic: semantic},
		[]string{"/q/u.js", "let a: number = 1;"}, map[string][]string{"/p/tsconfig.json": list}, un, false)
	vrt.Assert(err == nil, "errors in the source are no failure")
	want := 0
	for _, f := range fs {
		want += expect(f, f.name, syntax, semantic, got)
	}
	vrt.Assert(len(got) == want, "nothing else is reported")
	vrt.Assert(len(names) == len(fs), "the rules run on the listed files")
	if want == 0 {
		vrt.Reach("none")
	} else {
		vrt.Reach("some")
	}
}

type broken struct {
	config string
	errs   []diagnostic.Internal // Description: the help text
	base   bool                  // the error is in the extended configuration
}

func e(from, to int, text string) diagnostic.Internal {
	return diagnostic.Internal{Range: core.NewTextRange(from, to), Description: text}
}

const removed = "\nSee https://github.com/oxc-project/tsgolint/issues/351 for more information."

var configs = []broken{
	{`{"files":["c.ts"]}`, nil, false},
	{`{"compilerOptions":{"strict":"yes","nope":2},"files":["c.ts"]}`, []diagnostic.Internal{e(29, 34, "Compiler option 'strict' requires a value of type boolean."), e(35, 41, "Unknown compiler option 'nope'.")}, false},
	{`{"compilerOptions":{"baseUrl":"."},"files":["c.ts"]}`, []diagnostic.Internal{e(20, 29, "Option 'baseUrl' has been removed. Please remove it from your configuration."+removed)}, false},
	{`{"extends":"./base.json","files":["c.ts"]}`, []diagnostic.Internal{e(20, 26, "Unknown compiler option 'nope'.")}, true},
	{`{"files":["c.ts"],"references":[{"path":"./gone"}]}`, []diagnostic.Internal{e(32, 49, "File '/q/gone' not found.")}, false},
	{`{"files":["c.ts","gone.ts"]}`, []diagnostic.Internal{e(-1, -1, "File '/q/gone.ts' not found.")}, false},
	{`{"compilerOptions":{"declaration":false,"declarationMap":true},"files":["c.ts"]}`, []diagnostic.Internal{e(20, 33, "Option 'declarationMap' cannot be specified without specifying option 'declaration' or option 'composite'.")}, false},
	{`[]`, []diagnostic.Internal{e(-1, -1, "The root value of a 'tsconfig.json' file must be an object.")}, false},
	{`{"extends":"./gone.json","files":["c.ts"]}`, []diagnostic.Internal{e(-1, -1, "Cannot read file '/q/gone.json'.")}, false},
	{`{"compilerOptions":{"target":true},"files":"c.ts"}`, []diagnostic.Internal{e(29, 33, "Compiler option 'target' requires a value of type enum."), e(43, 49, "Compiler option 'files' requires a value of type Array.")}, false},
}

// Two projects linted together, in any order, the second one with any of ten
// configurations that are fine, broken in the text, in an extended text, in
// combination or in what they refer to; configuration errors suppressed or not:
// a broken configuration is reported with all its errors and its files are left
// alone; all other files are linted. When suppressed nothing is said of it and
// its files are linted.
//
//vrt:opt must=broken,suppressed,fine weight=20
func Verif_Configs() {
	c := configs[vrt.Choice("config", len(configs))]
	sup := vrt.Bool("suppressed")
	semantic := vrt.Bool("semantic")
	path := "/q/tsconfig.json"
	where := path
	if c.base {
		where = "/q/base.json"
	}
	vrt.MapOrder(2)
	got, names, err := lint(vlint.Config{Files: []string{"a.ts", "x;"}, Semantic: semantic},
		[]string{path, c.config, "/q/c.ts", "let y = 1;", "/q/base.json", `{"compilerOptions":{"nope":1}}`},
		map[string][]string{"/p/tsconfig.json": {"/p/a.ts"}, path: {"/q/c.ts"}}, nil, sup)
	vrt.Assert(err == nil, "a broken configuration is reported and no failure")
	linted := map[string]int{}
	for _, n := range names {
		linted[n]++
	}
	vrt.Assert(linted["/p/a.ts"] == 1, "the files of other projects are linted")
	var errs []diagnostic.Internal
	other := 0
	for _, g := range got {
		if *g.FilePath == "/p/a.ts" {
			other++
			vrt.Assert(g.Id == "TS2304" && g.Range == core.NewTextRange(0, 1), "errors of other projects are reported")
			continue
		}
		errs = append(errs, g)
	}
	vrt.Assert(other == b2i(semantic), "errors of other projects are reported as asked for")
	if len(c.errs) == 0 || sup {
		vrt.Assert(len(errs) == 0, "nothing is said of a configuration that is fine, or when it is not to be checked")
		vrt.Assert(linted["/q/c.ts"] == 1, "its files are linted")
		if sup {
			vrt.Reach("suppressed")
		} else {
			vrt.Reach("fine")
		}
		return
	}
	vrt.Assert(linted["/q/c.ts"] == 0, "the files of a broken project are not linted")
	vrt.Assert(len(errs) == len(c.errs), "each error of a configuration is reported once")
	for i, w := range c.errs {
		g := errs[i]
		vrt.Assert(g.Id == "tsconfig-error" && g.Description == "Invalid tsconfig", "it is a configuration error")
		vrt.Assert(g.Help == w.Description, "it says what is wrong")
		vrt.Assert(*g.FilePath == where, "it names the configuration it is in")
		vrt.Assert(g.Range == w.Range, "it points at the place")
	}
	vrt.Reach("broken")
}
