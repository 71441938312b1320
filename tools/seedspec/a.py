import os
H = open(os.path.join(os.path.dirname(__file__), "headless_helper.go.txt")).read()
SEEDS = []
def seed(**k): SEEDS.append(k)
FIX = '''
package linter

import (
	"testing"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

func mk(id string, fx ...rule.RuleFix) rule.RuleDiagnostic {
	return rule.RuleDiagnostic{Message: rule.RuleMessage{Id: id}, FixesPtr: &fx}
}

func r(text string, a, b int) rule.RuleFix { return rule.RuleFix{Text: text, Range: core.NewTextRange(a, b)} }
'''
seed(id="P01-touching", property="P01", needs="two diagnostics whose edits touch without overlapping",
 breaks="the second of two adjacent, non-overlapping diagnostics is not applied",
 edits=[("internal/linter/source_code_fixer.go", "		if lastFixEnd > fixes[0].Range.Pos() {\n", "		if lastFixEnd > 0 && lastFixEnd >= fixes[0].Range.Pos() {\n")],
 pkg="internal/linter", test=FIX + '''
func TestSeedDemo(t *testing.T) {
	out, rest, fixed := ApplyRuleFixes("abcdef", []rule.RuleDiagnostic{mk("1", r("X", 0, 2)), mk("2", r("Y", 2, 3))})
	if out != "XYdef" || !fixed || len(rest) != 0 {
		t.Fatal(out, rest, fixed)
	}
}
''')
seed(id="P01-tie", property="P01", needs="one diagnostic that lists a replacement before an insertion at the same position",
 breaks="edits at one position are no longer put in order: the fixer slices backwards and crashes",
 edits=[("internal/linter/source_code_fixer.go", "				start := a.Range.Pos() - b.Range.Pos()\n				if start == 0 {\n					return a.Range.End() - b.Range.End()\n				}\n				return start\n", "				return a.Range.Pos() - b.Range.Pos()\n")],
 pkg="internal/linter", test=FIX + '''
func TestSeedDemo(t *testing.T) {
	out, rest, fixed := ApplyRuleFixes("abcdef", []rule.RuleDiagnostic{mk("1", r("X", 1, 2), r("(", 1, 1))})
	if out != "a(Xcdef" || !fixed || len(rest) != 0 {
		t.Fatal(out, rest, fixed)
	}
}
''')
seed(id="P02-astral", property="P02", needs="a character outside the basic multilingual plane in the text",
 breaks="astral characters are written as a \\u escape of five digits, which denotes another text",
 edits=[("internal/utils/string_literal.go", "			if ch <= '\\u001f' {\n", "			if ch <= '\\u001f' || ch > '\\uffff' {\n")],
 pkg="internal/utils", test='''
package utils

import "testing"

func TestSeedDemo(t *testing.T) {
	if s := QuoteSingleStringLiteral("a\\U0001f600b"); s != "'a\\U0001f600b'" && s != `'a\\uD83D\\uDE00b'` && s != `'a\\u{1F600}b'` {
		t.Fatal(s)
	}
}
''')
seed(id="P03-timing-early", property="P03", needs="timings enabled and a diagnostic still queued or buffered when the linter returns",
 breaks="the timing message is written before the diagnostics writer has finished: it is not the last message and may tear another one",
 edits=[("cmd/tsgolint/headless.go", '''	if opts.debugTimings {
		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
			log.Printf("ERROR: failed to write timing output: %v", err)
			return 1
		}
	}

	if logLevel''', '''	if logLevel'''),
 ("cmd/tsgolint/headless.go", '''	close(diagnosticsChan)
''', '''	if opts.debugTimings && err == nil {
		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
			log.Printf("ERROR: failed to write timing output: %v", err)
			return 1
		}
	}

	close(diagnosticsChan)
''')],
 pkg="cmd/tsgolint", test=H + '''
func TestSeedDemo(t *testing.T) {
	fr, code := headless(t, map[string]string{"tsconfig.json": cfg, "a.ts": strings.Repeat("debugger;\\n", 50)}, v2([]string{"a.ts"}, "r"),
		[]rule.Rule{every("r", ast.KindDebuggerStatement)}, []string{"-debug", "timings"}, nil)
	if code != 0 || len(fr) != 51 || fr[50].kind != 2 {
		t.Fatal(code, len(fr))
	}
}
''')
seed(id="P03-lost-on-error", property="P03", needs="a linter failure after another project has been linted",
 breaks="when the linter fails, buffered diagnostics of the projects already linted are discarded",
 edits=[("cmd/tsgolint/headless.go", "		defer w.Flush()\n		for d := range diagnosticsChan {\n", "		defer func() {\n			if err == nil {\n				w.Flush()\n			}\n		}()\n		for d := range diagnosticsChan {\n")],
 pkg="cmd/tsgolint", test=H + '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		fr, code := headless(t, map[string]string{"tsconfig.json": cfg, "a.ts": "debugger;", "all.json": `{"files":["b.ts"],"compilerOptions":{"lib":["es5"],"types":[]}}`, "b.ts": "1"}, v2([]string{"a.ts", "b.ts"}, "r"),
			[]rule.Rule{every("r", ast.KindDebuggerStatement)}, nil, func(f string) string {
				if f == "b.ts" {
					return "gone/tsconfig.json"
				}
				return ""
			})
		if code != 1 || len(fr) == 0 || fr[len(fr)-1].kind != 0 {
			t.Fatal(code, fr)
		}
		// the order of projects is random; the linted one must not lose its report
		if len(fr) == 2 {
			return
		}
	}
	t.Fatal("the diagnostic was never delivered")
}
''')
seed(id="P04-newer", property="P04", needs="a payload of a version after 2",
 breaks="payloads of unknown newer versions are read as version 2 instead of being refused",
 edits=[("cmd/tsgolint/payload.go", "	if version == 2 {\n", "	if version >= 2 {\n")],
 pkg="cmd/tsgolint", test='''
package main

import "testing"

func TestSeedDemo(t *testing.T) {
	if p, err := deserializePayload([]byte(`{"version":3,"configs":[]}`)); err == nil || p != nil {
		t.Fatal(p, err)
	}
}
''')
seed(id="P04-alias", property="P04", needs="a first-format payload with at least two files with rules",
 breaks="the converted configurations share one rule buffer, so the rules of an earlier file are overwritten by a later one",
 edits=[("cmd/tsgolint/payload.go", "	for i, fileV1 := range payloadV1.Files {\n", "	rules := make([]headlessRule, 0, 16)\n	for i, fileV1 := range payloadV1.Files {\n		rules = rules[:0]\n"),
  ("cmd/tsgolint/payload.go", "			Rules:     make([]headlessRule, len(fileV1.Rules)),\n", ""),
  ("cmd/tsgolint/payload.go", "		for j, rule := range fileV1.Rules {\n			config.Rules[j] = headlessRule{Name: rule} // V1 rules are just strings\n		}\n", "		for _, rule := range fileV1.Rules {\n			rules = append(rules, headlessRule{Name: rule}) // V1 rules are just strings\n		}\n		config.Rules = rules\n")],
 pkg="cmd/tsgolint", test='''
package main

import "testing"

func TestSeedDemo(t *testing.T) {
	p, err := deserializePayload([]byte(`{"files":[{"file_path":"a","rules":["x","y"]},{"file_path":"b","rules":["z"]}]}`))
	if err != nil || len(p.Configs) != 2 || len(p.Configs[0].Rules) != 2 || p.Configs[0].Rules[0].Name != "x" || p.Configs[0].Rules[1].Name != "y" || p.Configs[1].Rules[0].Name != "z" {
		t.Fatal(p, err)
	}
}
''')
seed(id="P05-empty", property="P05", needs="an override whose text is empty",
 breaks="an empty override is ignored and the file on disk is read instead",
 edits=[("cmd/tsgolint/overlayfs.go", "	if content, ok := o.overrides[path]; ok {\n", "	if content := o.overrides[path]; content != \"\" {\n")],
 pkg="cmd/tsgolint", test='''
package main

import (
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/zzmem"
)

func TestSeedDemo(t *testing.T) {
	fs := newOverlayFS(zzmem.NewMem("/a.ts", "disk"), map[string]string{"/a.ts": ""})
	if s, ok := fs.ReadFile("/a.ts"); !ok || s != "" {
		t.Fatal(s, ok)
	}
}
''')
seed(id="P06-fallback", property="P06", needs="a search with at least two results that do not stop it",
 breaks="the last non-stopping result is returned instead of the first",
 edits=[("internal/utils/bfs.go", "				if fallback == nil {\n					fallback = job\n				}\n", "				fallback = job\n")],
 pkg="internal/utils", test='''
package utils

import "testing"

func TestSeedDemo(t *testing.T) {
	g := map[int][]int{0: {1, 2}, 1: {3}}
	r := BreadthFirstSearch(0, func(n int) []int { return g[n] }, func(n int) (bool, bool) { return n == 1 || n == 3, false }, BreadthFirstSearchOptions[int]{})
	if r.Stopped || len(r.Path) != 2 || r.Path[0] != 1 || r.Path[1] != 0 {
		t.Fatal(r)
	}
}
''')
seed(id="P06-preseen", property="P06", needs="a start node that an earlier search already visited",
 breaks="the start node is visited again when it was visited before",
 edits=[("internal/utils/bfs.go", "			if !visited.AddIfAbsent(job.node) {\n", "			if !visited.AddIfAbsent(job.node) && levelIndex > 0 {\n")],
 pkg="internal/utils", test='''
package utils

import (
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/collections"
)

func TestSeedDemo(t *testing.T) {
	var seen collections.SyncSet[int]
	seen.Add(0)
	n := 0
	BreadthFirstSearch(0, func(n int) []int { return nil }, func(int) (bool, bool) { n++; return false, false }, BreadthFirstSearchOptions[int]{Visited: &seen})
	if n != 0 {
		t.Fatal(n)
	}
}
''')
