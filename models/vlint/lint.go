package vlint

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
)

// Config is one run of the linter.
type Config struct {
	Files    []string // name, text, name, text ...
	Others   []string // the same, but not listed in the tsconfig
	Options  string   // extra compilerOptions, JSON members
	Rules    []rule.Rule
	RuleOpts any
	NoFix    bool
	NoSug    bool
	Syntax   bool
	Semantic bool
	warm     bool
}

// Result is everything the linter reported.
type Result struct {
	Diags    []rule.RuleDiagnostic
	Internal []diagnostic.Internal
	Err      error
}

const strict = `"strict":true,"target":"es2022","module":"esnext","lib":["es5"],"types":[]`

// FS holds the files of a program, the default library and a tsconfig.
func FS(c Config) (*vfix.MemFS, []string) {
	if !c.warm && Warm == 0 {
		panic("library not warmed up")
	}
	fs := vfix.NewMemFS()
	for _, l := range []string{"lib.es5.d.ts", "lib.d.ts", "lib.es2022.full.d.ts", "lib.es2022.d.ts"} {
		fs.Files[bundled.LibPath()+"/"+l] = Lib
	}
	list := ""
	var names []string
	for i := 0; i+1 < len(c.Files); i += 2 {
		n := tspath.NormalizePath("/p/" + c.Files[i])
		fs.Files[n] = c.Files[i+1]
		names = append(names, n)
		if list != "" {
			list += ","
		}
		list += `"` + c.Files[i] + `"`
	}
	for i := 0; i+1 < len(c.Others); i += 2 {
		fs.Files[tspath.NormalizePath("/p/"+c.Others[i])] = c.Others[i+1]
	}
	o := strict
	if c.Options != "" {
		o += "," + c.Options
	}
	fs.Files["/p/tsconfig.json"] = `{"compilerOptions":{` + o + `},"files":[` + list + `]}`
	return fs, names
}

// Run lints the program of c with one worker.
func Run(c Config) (r Result) {
	fs, names := FS(c)
	r.Err = linter.RunLinter(linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/p",
		Workload: linter.Workload{Programs: map[string][]string{"/p/tsconfig.json": names}},
		Workers:  1, FS: fs,
		SuppressProgramDiagnostics: true,
		GetRulesForFile: func(f *ast.SourceFile) []linter.ConfiguredRule {
			var out []linter.ConfiguredRule
			for _, x := range c.Rules {
				out = append(out, linter.ConfiguredRule{Name: x.Name, Run: func(ctx rule.RuleContext) rule.RuleListeners { return x.Run(ctx, c.RuleOpts) }})
			}
			return out
		},
		OnRuleDiagnostic:     func(d rule.RuleDiagnostic) { r.Diags = append(r.Diags, d) },
		OnInternalDiagnostic: func(d diagnostic.Internal) { r.Internal = append(r.Internal, d) },
		Fixes:                linter.Fixes{Fix: !c.NoFix, FixSuggestions: !c.NoSug},
		TypeErrors:           linter.TypeErrors{ReportSyntactic: c.Syntax, ReportSemantic: c.Semantic},
	})
	return
}

// One lints a single source with one rule.
func One(src string, r rule.Rule, opts any) []rule.RuleDiagnostic {
	return Run(Config{Files: []string{"a.ts", src}, Rules: []rule.Rule{r}, RuleOpts: opts}).Diags
}

// Program builds and binds a program, and returns it with its files.
func Program(c Config) (*compiler.Program, []*ast.SourceFile) {
	fs, names := FS(c)
	host := utils.NewCachedFSCompilerHost("/p", fs, bundled.LibPath(), nil, nil)
	p, _, err := utils.CreateProgram(true, fs, "/p", "/p/tsconfig.json", host, true)
	if err != nil || p == nil {
		panic("no program")
	}
	var fl []*ast.SourceFile
	for _, n := range names {
		fl = append(fl, p.GetSourceFile(n))
	}
	return p, fl
}

// the library is parsed and bound once, before any input is chosen
var Warm int

func init() {
	Program(Config{Files: []string{"w.ts", "export {}"}, warm: true})
	Warm = 1
}
