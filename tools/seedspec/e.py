SEEDS = []
def seed(**k): SEEDS.append(k)
RUN = '''
package utils_test

import (
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/zzlint"
)

func timed(t *testing.T, files map[string]string, progs map[string][]string, names ...string) map[string]uint64 {
	store := linter.NewRuleTimingStore()
	err := linter.RunLinter(linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/", TimingStore: store,
		Workload: linter.Workload{Programs: progs}, Workers: 1, FS: zzlint.FS(files),
		GetRulesForFile: func(f *ast.SourceFile) (out []linter.ConfiguredRule) {
			for _, n := range names {
				out = append(out, linter.ConfiguredRule{Name: n, Run: func(rule.RuleContext) rule.RuleListeners {
					return rule.RuleListeners{ast.KindNumericLiteral: func(n *ast.Node) {}}
				}})
			}
			return
		},
		OnRuleDiagnostic:     func(d rule.RuleDiagnostic) {},
		OnInternalDiagnostic: func(d diagnostic.Internal) {},
	})
	if err != nil {
		t.Fatal(err)
	}
	got := map[string]uint64{}
	for _, r := range store.Collect() {
		got[r.RuleName] = r.Calls
	}
	return got
}

const cfg = `{"compilerOptions":{"strict":true,"lib":["es5"],"types":[]},"include":["**/*.ts"]}`
'''
seed(id="P13-merge", property="P13", needs="one worker that gets work from two programs",
 breaks="a worker adds its timings up again for each program it takes part in, so calls and durations are counted several times",
 edits=[("internal/linter/linter.go", "						registeredListeners[k] = registeredListeners[k][:0]\n					}\n				}\n			}\n\n			timingStore.merge(localTimings)\n", "						registeredListeners[k] = registeredListeners[k][:0]\n					}\n				}\n				timingStore.merge(localTimings)\n			}\n")],
 pkg="internal/utils", test=RUN + '''
func TestSeedDemo(t *testing.T) {
	got := timed(t, map[string]string{"/p/a.ts": "1", "/p/tsconfig.json": cfg, "/q/b.ts": "2; 3", "/q/tsconfig.json": cfg},
		map[string][]string{"/p/tsconfig.json": {"/p/a.ts"}, "/q/tsconfig.json": {"/q/b.ts"}}, "r")
	if got["r"] != 5 {
		t.Fatal(got)
	}
}
''')
seed(id="P13-reuse", property="P13", needs="two files linted by one worker",
 breaks="the per-file statistics are reused without being reset, so the calls of a file are counted again with the next one",
 edits=[("internal/linter/linter.go", "			localTimings := make(map[string]RuleTimingStat, 64)\n", "			localTimings := make(map[string]RuleTimingStat, 64)\n			var timingStats []RuleTimingStat\n"),
        ("internal/linter/linter.go", "					timingStats := make([]RuleTimingStat, len(rules))\n", "					if cap(timingStats) < len(rules) {\n						timingStats = make([]RuleTimingStat, len(rules))\n					}\n					timingStats = timingStats[:len(rules)]\n")],
 pkg="internal/utils", test=RUN + '''
func TestSeedDemo(t *testing.T) {
	got := timed(t, map[string]string{"/p/a.ts": "1", "/p/tsconfig.json": cfg, "/p/b.ts": "2; 3"},
		map[string][]string{"/p/tsconfig.json": {"/p/a.ts", "/p/b.ts"}}, "r", "s")
	if got["r"] != 5 || got["s"] != 5 {
		t.Fatal(got)
	}
}
''')
PR = '''
package main

import (
	"bufio"
	"bytes"
	"regexp"
	"strings"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

func show(text string, from, to int) string {
	f := ast.NewNodeFactory(ast.NodeFactoryHooks{})
	file := f.NewSourceFile(ast.SourceFileParseOptions{FileName: "/p/a.ts", Path: tspath.Path("/p/a.ts")}, text, f.NewNodeList(nil), f.NewToken(ast.KindEndOfFile)).AsSourceFile()
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	printDiagnostic(rule.RuleDiagnostic{SourceFile: file, RuleName: "r", Message: rule.RuleMessage{Description: "m"}, Range: core.NewTextRange(from, to)}, w, tspath.ComparePathsOptions{CurrentDirectory: "/p", UseCaseSensitiveFileNames: true})
	w.Flush()
	return regexp.MustCompile("\\x1b\\\\[[0-9;]*m").ReplaceAllString(buf.String(), "")
}
'''
seed(id="P14-column", property="P14", needs="a report after a character outside of ASCII on the same line",
 breaks="the printed column counts bytes instead of UTF-16 units",
 edits=[("cmd/tsgolint/main.go", "	diagnosticStartLine, diagnosticStartColumn := scanner", "	diagnosticStartLine, _ := scanner"),
        ("cmd/tsgolint/main.go", "	text := d.SourceFile.Text()\n\n	codeboxStartLine", "	text := d.SourceFile.Text()\n	diagnosticStartColumn := diagnosticStart - int(lineMap[diagnosticStartLine])\n\n	codeboxStartLine")],
 pkg="cmd/tsgolint", test=PR + '''
func TestSeedDemo(t *testing.T) {
	if got := show("'\\u00e9\\U0001f600'; x", 10, 11); !strings.Contains(got, "( a.ts:1:8 )") {
		t.Fatal(got)
	}
	if got := show("'eee'; x", 7, 8); !strings.Contains(got, "( a.ts:1:8 )") {
		t.Fatal(got)
	}
}
''')
seed(id="P14-end-line", property="P14", needs="a report that ends at the start of a line",
 breaks="the code box ends too early when the reported range ends with a line break",
 edits=[("cmd/tsgolint/main.go", "UTF16CharacterOfPosition(d.SourceFile, diagnosticEnd)", "UTF16CharacterOfPosition(d.SourceFile, max(diagnosticStart, diagnosticEnd-1))")],
 pkg="cmd/tsgolint", test=PR + '''
func TestSeedDemo(t *testing.T) {
	if got := show("a\\nb\\nc\\nd\\n", 0, 2); !strings.Contains(got, "3 │  c\\n") || strings.Contains(got, "d") {
		t.Fatal(got)
	}
	if got := show("a\\nb\\nc\\nd\\n", 0, 1); !strings.Contains(got, "2 │  b\\n") || strings.Contains(got, "c") {
		t.Fatal(got)
	}
}
''')
