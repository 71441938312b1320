// Package vp13 checks the measured rule timings.
package vp13

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vclock"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type stat struct {
	ticks int
	calls uint64
}

// measure lints files with rules; costs of setting up a rule and of one call.
func measure(files []string, progs int, workers int, rulesOf func(name string) []string, setup, call map[string]int, store *linter.RuleTimingStore) (got map[string]*stat, reports []string) {
	got = map[string]*stat{}
	c := vlint.Config{Files: files}
	fs, names := vlint.FS(c)
	work := linter.Workload{Programs: map[string][]string{"/p/tsconfig.json": names}}
	if progs == 2 && len(names) > 1 {
		work.Programs["/p/tsconfig.json"] = names[:1]
		fs.Files["/p/two.json"] = fs.Files["/p/tsconfig.json"]
		work.Programs["/p/two.json"] = names[1:]
	}
	err := linter.RunLinter(linter.RunLinterOptions{
		LogLevel: utils.LogLevelNormal, CurrentDirectory: "/p", Workload: work, Workers: workers, FS: fs,
		GetRulesForFile: func(f *ast.SourceFile) (out []linter.ConfiguredRule) {
			for _, n := range rulesOf(f.FileName()) {
				if got[n] == nil {
					got[n] = &stat{}
				}
				s := got[n]
				out = append(out, linter.ConfiguredRule{Name: n, Run: func(ctx rule.RuleContext) rule.RuleListeners {
					tick(s, setup[n])
					if n == "idle" {
						return nil
					}
					file := ctx.SourceFile.FileName()
					return rule.RuleListeners{
						ast.KindNumericLiteral: func(d *ast.Node) {
							tick(s, call[n])
							ctx.ReportNode(d, rule.RuleMessage{Id: n, Description: file + d.Text()})
						},
						rule.ListenerOnExit(ast.KindBinaryExpression): func(d *ast.Node) { tick(s, call[n]) },
					}
				}})
			}
			return
		},
		OnRuleDiagnostic: func(d rule.RuleDiagnostic) {
			reports = append(reports, fmt.Sprint(d.RuleName, d.Message.Description, d.Range.Pos(), d.Range.End(), d.SourceFile.FileName()))
		},
		OnInternalDiagnostic: func(d diagnostic.Internal) {},
		TimingStore:          store,
	})
	vrt.Assert(err == nil, "the linter runs")
	return
}

func tick(s *stat, n int) {
	s.calls++
	s.ticks += n
	vclock.Work(n)
}

func check(recs []linter.RuleTimingRecord, got map[string]*stat) {
	vrt.Assert(len(recs) == len(got), "there is a timing for each rule that ran, and no other")
	for i, r := range recs {
		s := got[r.RuleName]
		vrt.Assert(s != nil, "it is of a rule that ran")
		vrt.Assert(r.Calls == s.calls, "it counts every call")
		if vrt.Symbolic() {
			vrt.Assert(r.Duration == time.Duration(s.ticks), "it adds up the time of every call")
		}
		if i > 0 {
			p := recs[i-1]
			vrt.Assert(vrt.Or(p.Duration > r.Duration, vrt.And(p.Duration == r.Duration, p.RuleName < r.RuleName)), "the slowest rule comes first, equal ones in order of their names")
		}
	}
}

// Two files in one project or two, rules out of three (one without listeners)
// for either, with a symbolic cost of the set-up and of a call each: the timings
// add up, count all calls and are sorted; the reports are those of a run
// without timings.
//
//vrt:opt must=equal,differ,none weight=20
func Verif_Sums() {
	vclock.Reset()
	names := []string{"b", "a", "idle"}
	setup, call := map[string]int{}, map[string]int{}
	for _, n := range names {
		setup[n], call[n] = int(vrt.Byte("setup "+n)), int(vrt.Byte("call "+n))
	}
	pick := map[string][]string{}
	lists := [][]string{{"b", "a"}, {}, {"a"}, {"idle", "b"}, {"b", "b"}}
	pick["/p/a.ts"] = lists[vrt.Choice("rules of a.ts", len(lists))]
	pick["/p/b.ts"] = lists[vrt.Choice("rules of b.ts", len(lists))]
	progs := 1 + vrt.Choice("projects", 2)
	files := []string{"a.ts", "1 + 2; export {}", "b.ts", []string{"x", "3; (4 + 5) + 6"}[vrt.Choice("text", 2)]}
	of := func(f string) []string { return pick[f] }
	store := linter.NewRuleTimingStore()
	got, timed := measure(files, progs, 1, of, setup, call, store)
	recs := store.Collect()
	check(recs, got)
	_, plain := measure(files, progs, 1, of, setup, call, nil)
	sort.Strings(timed)
	sort.Strings(plain)
	vrt.Assert(strings.Join(timed, "\n") == strings.Join(plain, "\n"), "the reports do not depend on timing")
	switch {
	case len(recs) == 0:
		vrt.Reach("none")
	case len(recs) > 1 && recs[0].Duration == recs[1].Duration:
		vrt.Reach("equal")
	default:
		vrt.Reach("differ")
	}
}

// Two workers with two or three files, in every schedule with one preemption (two thorough):
// no call is lost, without data races.
//
//vrt:opt must=done weight=20 pre=2 native=off
func Verif_Workers() {
	vclock.Reset()
	setup, call := map[string]int{"a": 5, "b": 3, "idle": 1}, map[string]int{"a": 7, "b": 11}
	var files []string
	n := 2 + vrt.Choice("files", 1+vrt.Tier())
	for i := 0; i < n; i++ {
		files = append(files, "f"+strconv.Itoa(i)+".ts", strconv.Itoa(i)+" + 1; export {}")
	}
	rules := [][]string{{"a"}, {"a", "b"}, {"b", "idle"}}
	k := vrt.Choice("rules", 3)
	store := linter.NewRuleTimingStore()
	c := vlint.Config{Files: files}
	p, fl := vlint.Program(c)
	run := func(n string) linter.ConfiguredRule {
		return linter.ConfiguredRule{Name: n, Run: func(ctx rule.RuleContext) rule.RuleListeners {
			vclock.Work(setup[n])
			return rule.RuleListeners{ast.KindNumericLiteral: func(d *ast.Node) { vclock.Work(call[n]) }}
		}}
	}
	vrt.Race(true)
	vrt.Concurrent(1 + vrt.Tier())
	err := linter.RunLinterOnProgram(linter.RunLinterOnProgramOptions{
		LogLevel: utils.LogLevelNormal, Program: p, Files: fl, Workers: 2,
		GetRulesForFile: func(f *ast.SourceFile) (out []linter.ConfiguredRule) {
			for _, r := range rules[(k+int(f.FileName()[4]))%3] {
				out = append(out, run(r))
			}
			return
		},
		OnDiagnostic:         func(d rule.RuleDiagnostic) {},
		OnInternalDiagnostic: func(d diagnostic.Internal) {},
		TimingStore:          store,
	})
	vrt.Concurrent(0)
	vrt.Race(false)
	vrt.Assert(err == nil, "the linter runs")
	want := map[string]*stat{}
	for _, f := range fl {
		for _, r := range rules[(k+int(f.FileName()[4]))%3] {
			if want[r] == nil {
				want[r] = &stat{}
			}
			want[r].calls += 3
			want[r].ticks += setup[r] + 2*call[r]
		}
	}
	check(store.Collect(), want)
	vrt.Reach("done")
}
