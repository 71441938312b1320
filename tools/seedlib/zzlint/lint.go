// Package zzlint lints in-memory sources for the demonstrations.
package zzlint

import (
	"strings"
	"sync"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/zzmem"
)

type Result struct {
	Diags    []rule.RuleDiagnostic
	Internal []diagnostic.Internal
	Err      error
}

// FS wraps files with the real default library.
func FS(files map[string]string) vfs.FS {
	return bundled.WrapFS(&zzmem.Mem{Files: files})
}

const TSConfig = `{"compilerOptions":{"strict":true,"target":"esnext","lib":["esnext"],"module":"esnext","types":[]},"files":[LIST]}`

// Lint runs rules over files ("a.ts" lives in /p).
func Lint(files map[string]string, rules []rule.Rule, opts any) (r Result) {
	m := map[string]string{}
	var names, list []string
	cfg := TSConfig
	for n, t := range files {
		if n == "tsconfig.json" {
			cfg = t
			continue
		}
		m["/p/"+n] = t
		if strings.Contains(n, "node_modules/") {
			continue
		}
		names = append(names, "/p/"+n)
		list = append(list, `"`+n+`"`)
	}
	m["/p/tsconfig.json"] = strings.ReplaceAll(cfg, "LIST", strings.Join(list, ","))
	var mu sync.Mutex
	r.Err = linter.RunLinter(linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/p",
		Workload: linter.Workload{Programs: map[string][]string{"/p/tsconfig.json": names}},
		Workers:  1, FS: FS(m),
		GetRulesForFile: func(f *ast.SourceFile) (out []linter.ConfiguredRule) {
			for _, x := range rules {
				out = append(out, linter.ConfiguredRule{Name: x.Name, Run: func(ctx rule.RuleContext) rule.RuleListeners { return x.Run(ctx, opts) }})
			}
			return out
		},
		OnRuleDiagnostic:     func(d rule.RuleDiagnostic) { mu.Lock(); r.Diags = append(r.Diags, d); mu.Unlock() },
		OnInternalDiagnostic: func(d diagnostic.Internal) { mu.Lock(); r.Internal = append(r.Internal, d); mu.Unlock() },
		Fixes:                linter.Fixes{Fix: true, FixSuggestions: true},
	})
	return
}

// Ids lists the message ids one rule reports on one source, in order.
func Ids(src string, r rule.Rule, opts any) string {
	res := Lint(map[string]string{"a.ts": src}, []rule.Rule{r}, opts)
	var out []string
	for _, d := range res.Diags {
		out = append(out, d.Message.Id)
	}
	return strings.Join(out, ",")
}
