import os
H = open(os.path.join(os.path.dirname(__file__), "headless_helper.go.txt")).read()
SEEDS = []
def seed(**k): SEEDS.append(k)
TC = '''
package utils

import (
	"testing"

	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/project"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/zzmem"
)

func resolver(files map[string]string) *TsConfigResolver {
	fs := bundled.WrapFS(&zzmem.Mem{Files: files})
	up := func(d string) string {
		for {
			if fs.FileExists(tspath.CombinePaths(d, "tsconfig.json")) {
				return tspath.CombinePaths(d, "tsconfig.json")
			}
			if d == "/" {
				return ""
			}
			d = tspath.GetDirectoryPath(d)
		}
	}
	project.DefaultEnv = &project.Env{
		Compute: func(file string, skip bool) string {
			d := tspath.GetDirectoryPath(file)
			if skip {
				if d == "/" {
					return ""
				}
				d = tspath.GetDirectoryPath(d)
			}
			return up(d)
		},
		Find: func(name string, path, file tspath.Path) *tsoptions.ParsedCommandLine {
			host := NewCompilerHost(tspath.GetDirectoryPath(name), fs, bundled.LibPath(), nil, nil)
			c, _ := tsoptions.GetParsedCommandLineOfConfigFile(name, &core.CompilerOptions{}, nil, host, nil)
			return c
		},
		Ancestor: func(string, tspath.Path, string) string { return "" },
	}
	return NewTsConfigResolver(fs, "/")
}
'''
seed(id="P07-solution", property="P07", needs="a solution-style tsconfig without files of its own that references the project containing the file",
 breaks="a configuration without files is not remembered, so the projects it references are never consulted and their files stay unmatched",
 edits=[("internal/utils/find_tsconfig.go", "			configs.Store(configFilePath, config)\n			if len(config.FileNames()) == 0 {\n				return false, false\n			}\n", "			if len(config.FileNames()) == 0 {\n				return false, false\n			}\n			configs.Store(configFilePath, config)\n")],
 pkg="internal/utils", test=TC + '''
func TestSeedDemo(t *testing.T) {
	r := resolver(map[string]string{"/tsconfig.json": `{"files":[],"references":[{"path":"./app.json"}]}`, "/app.json": `{"files":["a.ts"]}`, "/a.ts": ""})
	if c, ok := r.FindTsconfigForFile("/a.ts", false); !ok || c != "/app.json" {
		t.Fatal(c, ok)
	}
}
''')
seed(id="P07-dir-cache", property="P07", needs="two files of one directory that belong to different projects, resolved in one go",
 breaks="the answer for one file of a directory is reused for all others of it",
 edits=[("internal/utils/find_tsconfig.go", "	for file := range in {\n		config := r.configFileRegistryBuilder.ComputeConfigFileName(file, false, nil)\n", "	byDir := map[string]string{}\n	for file := range in {\n		if config, ok := byDir[tspath.GetDirectoryPath(file)]; ok {\n			out <- ResolutionResult{\n				file:   file,\n				config: config,\n			}\n			continue\n		}\n		config := r.configFileRegistryBuilder.ComputeConfigFileName(file, false, nil)\n"),
  ("internal/utils/find_tsconfig.go", "		result := r.findConfigWithReferences(file, fileNormalized, config, nil, nil)\n		out <-", "		result := r.findConfigWithReferences(file, fileNormalized, config, nil, nil)\n		byDir[tspath.GetDirectoryPath(file)] = result.configFileName\n		out <-")],
 pkg="internal/utils", test=TC + '''
func TestSeedDemo(t *testing.T) {
	files := map[string]string{"/tsconfig.json": `{"files":[],"references":[{"path":"./app.json"},{"path":"./test.json"}]}`, "/app.json": `{"files":["a.ts"]}`, "/test.json": `{"files":["b.ts"]}`, "/a.ts": "", "/b.ts": ""}
	r := resolver(files)
	for i := 0; i < 300; i++ {
		m := r.FindTsConfigParallel([]string{"/a.ts", "/b.ts"})
		if m["/a.ts"] != "/app.json" || m["/b.ts"] != "/test.json" {
			t.Fatal(m)
		}
	}
}
''')
LN = '''
package linter

import (
	"strings"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

var _ = ast.KindUnknown

// run lints /p/a.ts, /p/b.ts ... with the rules each file asks for
func run(t *testing.T, files map[string]string, rules func(name string) []ConfiguredRule) (out []string) {
	m := map[string]string{}
	var names, list []string
	for _, n := range []string{"a.ts", "b.ts", "c.ts"} {
		if s, ok := files[n]; ok {
			m["/p/"+n] = s
			names = append(names, "/p/"+n)
			list = append(list, `"`+n+`"`)
		}
	}
	m["/p/tsconfig.json"] = `{"compilerOptions":{"lib":["es5"],"types":[]},"files":[` + strings.Join(list, ",") + `]}`
	var base vfs.FS = utils.NewOverlayVFS(bundled.WrapFS(utils.NewOverlayVFSForFile("/nope", "")), m)
	err := RunLinter(RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/p",
		Workload: Workload{Programs: map[string][]string{"/p/tsconfig.json": names}},
		Workers:  1, FS: base,
		GetRulesForFile:      func(f *ast.SourceFile) []ConfiguredRule { return rules(strings.TrimPrefix(f.FileName(), "/p/")) },
		OnRuleDiagnostic:     func(d rule.RuleDiagnostic) { out = append(out, strings.TrimPrefix(d.SourceFile.FileName(), "/p/")+":"+d.RuleName+":"+d.Message.Id) },
		OnInternalDiagnostic: func(d diagnostic.Internal) { t.Fatal(d) },
	})
	if err != nil {
		t.Fatal(err)
	}
	return out
}

func on(name string, kind ast.Kind) ConfiguredRule {
	return ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
		return rule.RuleListeners{kind: func(n *ast.Node) { ctx.ReportNode(n, rule.RuleMessage{Id: name}) }}
	}}
}
'''
seed(id="P08-stale", property="P08", needs="a worker that lints a file with rules and then one without any",
 breaks="listeners of the previous file are not cleared when the next file has no rules, so they are told about its nodes",
 edits=[("internal/linter/linter.go", '''						visitLintNodes(file, runListeners)
						// Instead of''', '''						visitLintNodes(file, runListeners)
						if len(rules) > 0 && ctxBuilder.fixState == (Fixes{}) && len(registeredListeners) == len(rules)+1 {
							continue
						}
						// Instead of''')],
 pkg="internal/linter", test=LN + '''
func TestSeedDemo(t *testing.T) {
	two := ConfiguredRule{Name: "two", Run: func(ctx rule.RuleContext) rule.RuleListeners {
		f := func(n *ast.Node) { ctx.ReportNode(n, rule.RuleMessage{Id: "two"}) }
		return rule.RuleListeners{ast.KindDebuggerStatement: f, ast.KindBreakStatement: f}
	}}
	out := run(t, map[string]string{"a.ts": "debugger", "b.ts": "debugger"}, func(n string) []ConfiguredRule {
		if n == "a.ts" {
			return []ConfiguredRule{two}
		}
		return nil
	})
	if strings.Join(out, " ") != "a.ts:two:two" {
		t.Fatal(out)
	}
}
''')
seed(id="P08-rule-name", property="P08", needs="two rules listening to one kind of node, in a file linted after another by the same worker",
 breaks="the rule name of a report is only updated when the listener changed since the last call, remembered per file, so the first reports of a later file carry the name of the rule that was set up last",
 edits=[("internal/linter/linter.go", '''				registeredListeners := make(map[ast.Kind][]taggedListener, 20)

''', '''				registeredListeners := make(map[ast.Kind][]taggedListener, 20)
				current := ""

'''), ("internal/linter/linter.go", '''									ctxBuilder.ruleName = listener.ruleName
									listener.fn(node)
''', '''									if listener.ruleName != current {
										current = listener.ruleName
										ctxBuilder.ruleName = current
									}
									listener.fn(node)
''')],
 pkg="internal/linter", test=LN + '''
func TestSeedDemo(t *testing.T) {
	out := run(t, map[string]string{"a.ts": "debugger", "b.ts": "debugger"}, func(n string) []ConfiguredRule {
		return []ConfiguredRule{on("x", ast.KindDebuggerStatement), on("y", ast.KindBreakStatement)}
	})
	if strings.Join(out, " ") != "a.ts:x:x b.ts:x:x" {
		t.Fatal(out)
	}
}
''')
seed(id="P09-spread", property="P09", needs="an object rest target in a destructuring assignment whose operand is itself a literal",
 breaks="targets below an object spread are announced as non-pattern literals",
 edits=[("internal/linter/linter.go", "		case ast.KindSpreadElement, ast.KindSpreadAssignment:\n			patternVisitor", "		case ast.KindSpreadElement:\n			patternVisitor")],
 pkg="internal/linter", test=LN + '''
func TestSeedDemo(t *testing.T) {
	k := rule.ListenerOnNotAllowPattern(ast.KindObjectLiteralExpression)
	out := run(t, map[string]string{"a.ts": "var a: any, b: any; ({...{b}} = a);"}, func(n string) []ConfiguredRule { return []ConfiguredRule{on("x", k)} })
	if len(out) != 0 {
		t.Fatal(out)
	}
}
''')
seed(id="P09-exit-order", property="P09", needs="a rule that listens to the exit of literals by role and by kind",
 breaks="the exit of a pattern is announced before its last children when the pattern is nested in a property value",
 edits=[("internal/linter/linter.go", "			childVisitor(node.Name())\n			patternVisitor(node.Initializer())\n", "			patternVisitor(node.Initializer())\n			childVisitor(node.Name())\n")],
 pkg="internal/linter", test=LN + '''
func TestSeedDemo(t *testing.T) {
	out := run(t, map[string]string{"a.ts": "var a: any, b: any; ({['k']: b[0]} = a);"}, func(n string) []ConfiguredRule {
		return []ConfiguredRule{on("s", ast.KindStringLiteral), on("n", ast.KindNumericLiteral)}
	})
	if strings.Join(out, " ") != "a.ts:s:s a.ts:n:n" {
		t.Fatal(out)
	}
}
''')
seed(id="P12-empty-range", property="P12", needs="a rule that reports an empty range (an insertion point)",
 breaks="the range of a diagnostic at a point is left out of the message",
 edits=[("cmd/tsgolint/headless.go", "					Range:         headlessRangeFromRange(rd.Range),\n", "					Range:         nil,\n"), ("cmd/tsgolint/headless.go", "				if len(rd.LabeledRanges) > 0 {\n", "				if rd.Range.Len() > 0 {\n					hd.Range = headlessRangeFromRange(rd.Range)\n				}\n				if len(rd.LabeledRanges) > 0 {\n")],
 pkg="cmd/tsgolint", test=H + '''
func TestSeedDemo(t *testing.T) {
	r := rule.Rule{Name: "r", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		ctx.ReportRange(core.NewTextRange(3, 3), rule.RuleMessage{Id: "x"})
		return nil
	}}
	fr, _ := headless(t, map[string]string{"tsconfig.json": cfg, "a.ts": "debugger;"}, v2([]string{"a.ts"}, "r"), []rule.Rule{r}, nil, nil)
	if len(fr) != 1 || !strings.Contains(fr[0].body, `"range":{"pos":3,"end":3}`) {
		t.Fatal(fr)
	}
}
''')
seed(id="P12-both-flags", property="P12", needs="fixes and suggestions both asked for and a report with suggestions through ReportNodeWithSuggestions",
 breaks="suggestions are dropped when fixes were asked for as well",
 edits=[("internal/linter/linter.go", '''func (b *ruleContextBuilder) reportNodeWithSuggestions(node *ast.Node, msg rule.RuleMessage, suggestionsFn func() []rule.RuleSuggestion) {
	var suggestions []rule.RuleSuggestion
	if b.fixState.FixSuggestions {''', '''func (b *ruleContextBuilder) reportNodeWithSuggestions(node *ast.Node, msg rule.RuleMessage, suggestionsFn func() []rule.RuleSuggestion) {
	var suggestions []rule.RuleSuggestion
	if b.fixState.FixSuggestions && !b.fixState.Fix {''')],
 pkg="cmd/tsgolint", test=H + '''
func TestSeedDemo(t *testing.T) {
	r := rule.Rule{Name: "r", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		return rule.RuleListeners{ast.KindDebuggerStatement: func(n *ast.Node) {
			ctx.ReportNodeWithSuggestions(n, rule.RuleMessage{Id: "x"}, func() []rule.RuleSuggestion {
				return []rule.RuleSuggestion{{Message: rule.RuleMessage{Id: "sug"}, FixesArr: []rule.RuleFix{{Text: "y", Range: core.NewTextRange(0, 1)}}}}
			})
		}}
	}}
	fr, _ := headless(t, map[string]string{"tsconfig.json": cfg, "a.ts": "debugger;"}, v2([]string{"a.ts"}, "r"), []rule.Rule{r}, []string{"-fix", "-fix-suggestions"}, nil)
	if len(fr) != 1 || !strings.Contains(fr[0].body, `"sug"`) {
		t.Fatal(fr)
	}
}
''')
