SEEDS = []
def seed(**k): SEEDS.append(k)
RUN = '''
package utils_test

import (
	"fmt"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/zzlint"
)

func run(files map[string]string, progs map[string][]string) (out []diagnostic.Internal, linted []string, err error) {
	err = linter.RunLinter(linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/",
		Workload: linter.Workload{Programs: progs}, Workers: 1, FS: zzlint.FS(files),
		GetRulesForFile: func(f *ast.SourceFile) []linter.ConfiguredRule {
			linted = append(linted, f.FileName())
			return nil
		},
		TypeErrors:           linter.TypeErrors{ReportSyntactic: true, ReportSemantic: true},
		OnRuleDiagnostic:     func(d rule.RuleDiagnostic) {},
		OnInternalDiagnostic: func(d diagnostic.Internal) { out = append(out, d) },
	})
	return
}

func show(ds []diagnostic.Internal) (s string) {
	for _, d := range ds {
		s += fmt.Sprintf("%s@%d-%d:%s ", d.Id, d.Range.Pos(), d.Range.End(), *d.FilePath)
	}
	return
}

const cfg = `{"compilerOptions":{"strict":true,"lib":["esnext"],"types":[]},"files":[%s]}`
'''
seed(id="P11-reference", property="P11", needs="a file whose only error is a reference to a missing file",
 breaks="errors about references of a file are only reported when the file has other type errors",
 edits=[("internal/linter/linter.go", "			includeProcessorDiagnostics := program.GetIncludeProcessorDiagnostics(file)\n			if len(finalDiagnostics) == 0 && len(includeProcessorDiagnostics) == 0 {\n				continue\n			}\n", "			if len(finalDiagnostics) == 0 {\n				continue\n			}\n			includeProcessorDiagnostics := program.GetIncludeProcessorDiagnostics(file)\n")],
 pkg="internal/utils", test=RUN + '''
func TestSeedDemo(t *testing.T) {
	ds, _, err := run(map[string]string{"/a.ts": "/// <reference path='./gone.ts'/>\\n", "/tsconfig.json": fmt.Sprintf(cfg, `"a.ts"`)}, map[string][]string{"/tsconfig.json": {"/a.ts"}})
	if got := show(ds); err != nil || got != "TS6053@21-30:/a.ts " {
		t.Fatal(got, err)
	}
}
''')
seed(id="P11-stop", property="P11", needs="a broken project that is visited before another one",
 breaks="the linter stops at the first project with a broken configuration, so the files of the projects after it are silently not linted",
 edits=[("internal/linter/linter.go", "				onInternalDiagnostic(d)\n			}\n			idx++\n			continue\n", "				onInternalDiagnostic(d)\n			}\n			break\n")],
 pkg="internal/utils", test=RUN + '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		ds, linted, err := run(map[string]string{"/a.ts": "", "/tsconfig.json": fmt.Sprintf(cfg, `"a.ts"`), "/q/b.ts": "", "/q/tsconfig.json": `{"compilerOptions":{"nope":1},"files":["b.ts"]}`}, map[string][]string{"/tsconfig.json": {"/a.ts"}, "/q/tsconfig.json": {"/q/b.ts"}})
		if err != nil || len(ds) != 1 || len(linted) != 1 {
			t.Fatal(show(ds), linted, err)
		}
	}
}
''')
seed(id="P11-alias", property="P11", needs="syntax errors in two files of one project",
 breaks="all syntax errors of a project share one file name, that of the file looked at last",
 edits=[("internal/linter/linter.go", "	if typeErrors.ReportSyntactic {\n		for _, file := range files {\n			fileName := file.FileName()\n", "	if typeErrors.ReportSyntactic {\n		var fileName string\n		for _, file := range files {\n			fileName = file.FileName()\n")],
 pkg="internal/utils", test=RUN + '''
func TestSeedDemo(t *testing.T) {
	ds, _, err := run(map[string]string{"/a.ts": "let a = ;", "/b.ts": "let bb = ;", "/tsconfig.json": fmt.Sprintf(cfg, `"a.ts","b.ts"`)}, map[string][]string{"/tsconfig.json": {"/a.ts", "/b.ts"}})
	if got := show(ds); err != nil || got != "TS1109@8-9:/a.ts TS1109@9-10:/b.ts " {
		t.Fatal(got, err)
	}
}
''')
