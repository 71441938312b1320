package vp08

import (
	"sort"
	"strings"
	"sync"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// Two workers lint three files with two rules that report while starting and
// from listeners, giving way to the other worker before each report: under
// every schedule with two preemptions (three thorough) in the linting phase each
// file is linted once with its own rules and context, each report is
// attributed to its rule and file, and no data race occurs.
//
//vrt:opt must=done weight=30 pre=3 native=off ckpt=1
func Verif_Workers() {
	texts := map[string]string{"/a.ts": "1", "/b.ts": "2", "/c.ts": "3"}
	names := []string{"/a.ts", "/b.ts", "/c.ts"}
	texts["/tsconfig.json"] = tsconfig("true", "a.ts", "b.ts", "c.ts")
	var mu sync.Mutex
	var got []string
	var once sync.Once
	opts := options(files(texts), linter.Workload{Programs: map[string][]string{"/tsconfig.json": names}}, func(f *ast.SourceFile) (out []linter.ConfiguredRule) {
		once.Do(func() {
			vrt.Checkpoint()
			vrt.Concurrent(2 + vrt.Tier())
			vrt.Race(true)
		})
		for _, name := range []string{"r", "s"} {
			if name == "s" && f.FileName() == "/c.ts" {
				continue
			}
			out = append(out, linter.ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
				vrt.Assert(ctx.SourceFile == f, "a rule runs on the file it was configured for")
				vrt.Yield()
				ctx.ReportRange(f.Loc, rule.RuleMessage{Id: name, Description: f.FileName()})
				return rule.RuleListeners{ast.KindNumericLiteral: func(n *ast.Node) {
					vrt.Yield()
					vrt.Assert(ctx.SourceFile == f && ast.GetSourceFileOfNode(n) == f, "a listener sees the nodes of its own file")
					ctx.ReportNode(n, rule.RuleMessage{Id: name, Description: f.FileName() + n.Text()})
				}}
			}})
		}
		return
	}, func(d rule.RuleDiagnostic) {
		mu.Lock()
		defer mu.Unlock()
		vrt.Assert(d.RuleName == d.Message.Id, "a report carries the rule that made it")
		vrt.Assert(d.SourceFile != nil && strings.HasPrefix(d.Message.Description, d.SourceFile.FileName()), "and its file")
		got = append(got, d.Message.Description+d.RuleName)
	})
	opts.Workers = 2
	err := linter.RunLinter(opts)
	vrt.Assert(err == nil, "linting succeeds")
	sort.Strings(got)
	vrt.Assert(strings.Join(got, " ") == "/a.ts1r /a.ts1s /a.tsr /a.tss /b.ts2r /b.ts2s /b.tsr /b.tss /c.ts3r /c.tsr", "every report arrives once")
	vrt.Reach("done")
}
