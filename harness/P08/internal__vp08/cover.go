// Package vp08 checks the linter driver: which files are linted, with which
// rules, in which program, and whom reports are attributed to.
package vp08

import (
	"strings"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

func files(m map[string]string) *vfix.MemFS {
	fs, _ := vlint.FS(vlint.Config{})
	delete(fs.Files, "/p/tsconfig.json")
	for n, t := range m {
		fs.Files[n] = t
	}
	return fs
}

func tsconfig(strict string, names ...string) string {
	return `{"compilerOptions":{"lib":["es5"],"types":[],"target":"es2022","module":"esnext","strict":` + strict + `},"files":["` + strings.Join(names, `","`) + `"]}`
}

func options(fs *vfix.MemFS, w linter.Workload, rules func(f *ast.SourceFile) []linter.ConfiguredRule, on func(d rule.RuleDiagnostic)) linter.RunLinterOptions {
	return linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/", Workload: w, Workers: 1, FS: fs,
		GetRulesForFile: rules, OnRuleDiagnostic: on,
		OnInternalDiagnostic: func(d diagnostic.Internal) { vrt.Fail("no internal diagnostics") },
	}
}

// Up to four files, each in the workload of one of two projects (both contain
// all of them), unmatched, or not in the workload, in any order, with one or
// two workers: exactly the files of the workload are linted, once each, in a
// program with the options of their project.
//
//vrt:opt must=p,q,none,skipped weight=20
func Verif_Coverage() {
	names := []string{"/a.ts", "/b.ts", "/c.ts", "/d.ts"}[:3+vrt.Tier()]
	texts := map[string]string{"/p/tsconfig.json": "", "/q/tsconfig.json": ""}
	var rel []string
	for _, n := range names {
		texts[n] = "export {};"
		rel = append(rel, ".."+n)
	}
	texts["/p/tsconfig.json"] = tsconfig("true", rel...)
	texts["/q/tsconfig.json"] = tsconfig("false", rel...)
	w := linter.Workload{Programs: map[string][]string{}}
	at := map[string]int{}
	for _, i := range order(len(names)) {
		n := names[i]
		at[n] = vrt.Choice(n, 4)
		switch at[n] {
		case 0:
			w.Programs["/p/tsconfig.json"] = append(w.Programs["/p/tsconfig.json"], n)
			vrt.Reach("p")
		case 1:
			w.Programs["/q/tsconfig.json"] = append(w.Programs["/q/tsconfig.json"], n)
			vrt.Reach("q")
		case 2:
			w.UnmatchedFiles = append(w.UnmatchedFiles, n)
			vrt.Reach("none")
		case 3:
			vrt.Reach("skipped")
		}
	}
	vrt.MapOrder(2)
	linted := map[string]int{}
	opts := options(files(texts), w, func(f *ast.SourceFile) []linter.ConfiguredRule {
		return []linter.ConfiguredRule{{Name: "r", Run: func(ctx rule.RuleContext) rule.RuleListeners {
			n := f.FileName()
			linted[n]++
			vrt.Assert(ctx.SourceFile == f, "a rule runs on the file it was configured for")
			vrt.Assert(ctx.Program != nil && ctx.Program.GetSourceFile(n) == f, "in a program that contains it")
			vrt.Assert(ctx.TypeChecker != nil, "with a type checker")
			o := ctx.Program.Options()
			switch at[n] {
			case 0:
				vrt.Assert(o.Strict.IsTrue(), "with the options of its project")
			case 1:
				vrt.Assert(o.Strict.IsFalse(), "with the options of its project")
			case 2:
				vrt.Assert(o.Strict.IsUnknown() && o.AllowJs.IsTrue(), "with the options for files without project")
			}
			return nil
		}}}
	}, func(d rule.RuleDiagnostic) {})
	opts.Workers = 1 + vrt.Choice("workers", 2)
	err := linter.RunLinter(opts)
	vrt.Assert(err == nil, "linting succeeds")
	for _, n := range names {
		want := 1
		if at[n] == 3 {
			want = 0
		}
		vrt.Assert(linted[n] == want, "each file of the workload is linted exactly once, and no other")
		delete(linted, n)
	}
	vrt.Assert(len(linted) == 0, "nothing else is linted")
}

func order(n int) []int {
	if n == 3 && vrt.Bool("reversed") {
		return []int{2, 1, 0}
	}
	return []int{0, 1, 2, 3}[:n]
}

// One worker lints three files in turn, each with its own subset of three rules
// that listen to different and shared node kinds: a listener is called for the
// nodes of the file it was made for only, for each of them once and in the
// order of the rules, and its reports carry its rule and file.
//
//vrt:opt must=empty,all weight=15
func Verif_Isolation() {
	texts := map[string]string{"/a.ts": "x;1", "/b.ts": "1;x;2", "/c.ts": "1"}
	names := []string{"/a.ts", "/b.ts", "/c.ts"}
	texts["/tsconfig.json"] = tsconfig("true", "a.ts", "b.ts", "c.ts")
	sets := map[string]int{}
	for _, n := range names {
		sets[n] = vrt.Int("rules"+n, 0, 7)
		vrt.Conc(sets[n])
	}
	kinds := map[string][]ast.Kind{
		"num": {ast.KindNumericLiteral}, "both": {ast.KindIdentifier, ast.KindNumericLiteral}, "exit": {rule.ListenerOnExit(ast.KindNumericLiteral)},
	}
	var got []string
	err := linter.RunLinter(options(files(texts), linter.Workload{Programs: map[string][]string{"/tsconfig.json": names}}, func(f *ast.SourceFile) (out []linter.ConfiguredRule) {
		for i, name := range []string{"num", "both", "exit"} {
			if sets[f.FileName()]&(1<<i) == 0 {
				continue
			}
			out = append(out, linter.ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
				l := rule.RuleListeners{}
				for _, k := range kinds[name] {
					l[k] = func(n *ast.Node) {
						vrt.Assert(ast.GetSourceFileOfNode(n) == f, "a listener sees the nodes of its own file")
						ctx.ReportNode(n, rule.RuleMessage{Id: name, Description: f.FileName() + n.Text()})
					}
				}
				return l
			}})
		}
		return
	}, func(d rule.RuleDiagnostic) {
		vrt.Assert(d.RuleName == d.Message.Id, "a report carries the rule that made it")
		vrt.Assert(d.SourceFile != nil && strings.HasPrefix(d.Message.Description, d.SourceFile.FileName()), "and its file")
		got = append(got, d.RuleName+":"+d.Message.Description)
	}))
	vrt.Assert(err == nil, "linting succeeds")
	var want []string
	for _, n := range names {
		for _, part := range strings.Split(texts[n], ";") {
			num := part != "x"
			if num && sets[n]&1 != 0 {
				want = append(want, "num:"+n+part)
			}
			if sets[n]&2 != 0 {
				want = append(want, "both:"+n+part)
			}
			if num && sets[n]&4 != 0 {
				want = append(want, "exit:"+n+part)
			}
		}
	}
	vrt.Assert(strings.Join(got, ",") == strings.Join(want, ","), "each listener is called once per node, in the order of the rules")
	if len(want) == 0 {
		vrt.Reach("empty")
	}
	if len(want) == 14 {
		vrt.Reach("all")
	}
}

var _ *compiler.Program
