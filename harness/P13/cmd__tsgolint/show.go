package main

import (
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-json-experiment/json"
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vclock"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// Up to three records, each with a duration (of four, in whole microseconds), a number of calls
// and a name of two lengths: a row each, in order, with milliseconds to three
// places, the share of the total to one place, and aligned columns (unless it
// took 1000 seconds).
//
//vrt:opt must=none,rows,zero weight=4
func Verif_Table() {
	n := vrt.Choice("records", 4)
	var rs []linter.RuleTimingRecord
	var total int64
	for i := 0; i < n; i++ {
		at := strconv.Itoa(i)
		us := []int64{0, 7, 40001, 123456789012}[vrt.Choice("time "+at, 4)]
		calls := []uint64{1, 987654}[vrt.Choice("calls "+at, 2)]
		name := []string{"r" + at, "no-rather-long-name-" + at}[vrt.Choice("name "+at, 2)]
		rs = append(rs, linter.RuleTimingRecord{RuleName: name, Duration: time.Duration(us) * time.Microsecond, Calls: calls})
		total += us
	}
	got := formatRuleTimingTable(rs)
	if n == 0 {
		vrt.Assert(got == "", "without records there is no table")
		vrt.Reach("none")
		return
	}
	lines := strings.Split(got, "\n")
	vrt.Assert(len(lines) == n+5 && lines[0] == "" && lines[n+4] == "", "there is a title, a head and a row for each record")
	for i := 0; i < n; i++ {
		l := lines[i+4]
		if rs[i].Duration < 1000*time.Second {
			vrt.Assert(len(l) == len(lines[2]) && len(l) == len(lines[3]), "the columns are aligned")
		}
		f := strings.Fields(l)
		vrt.Assert(len(f) == 4, "a row has four columns")
		vrt.Assert(f[0] == rs[i].RuleName, "the name of the rule")
		us := int64(rs[i].Duration / time.Microsecond)
		vrt.Assert(f[1] == strconv.FormatInt(us/1000, 10)+"."+strconv.FormatInt(1000+us%1000, 10)[1:], "the milliseconds")
		vrt.Assert(f[3] == strconv.FormatUint(rs[i].Calls, 10), "the calls")
		p, ok := strings.CutSuffix(f[2], "%")
		whole, tenth, dot := strings.Cut(p, ".")
		w, err1 := strconv.Atoi(whole)
		t, err2 := strconv.Atoi(tenth)
		vrt.Assert(ok && dot && len(tenth) == 1 && err1 == nil && err2 == nil, "a percentage")
		if total == 0 {
			vrt.Assert(w == 0 && t == 0, "no share of nothing")
			vrt.Reach("zero")
			continue
		}
		off := int64(10*w+t)*total - 1000*us
		vrt.Assert(-total <= 2*off && 2*off <= total, "the share of the total")
	}
	vrt.Reach("rows")
}

// The wording of the refusal is not looked at.
//
//vrt:replace fmt.Errorf
func vErrorf(format string, args ...any) error { return vErrIO }

// A list of debug options of up to three parts, each empty or known but for one
// that is a symbolic string of up to four (eight thorough) bytes or a known one changed in a byte:
// exactly lists of known ones are accepted.
//
//vrt:opt must=on,off,unknown weight=5
func Verif_Option() {
	n := vrt.Choice("parts", 4)
	var parts []string
	odd := vrt.Choice("odd", 4)
	for i := 0; i < n; i++ {
		switch {
		case i == odd && vrt.Bool("free"):
			parts = append(parts, vrt.Str("part", 4+4*vrt.Tier()))
		case i == odd:
			k := vrt.Choice("place", 7)
			parts = append(parts, "timings"[:k]+string([]byte{vrt.Byte("byte")})+"timings"[k+1:])
		default:
			parts = append(parts, []string{"", "timings"}[vrt.Choice("part "+strconv.Itoa(i), 2)])
		}
	}
	s := strings.Join(parts, ",")
	on, err := parseDebugTimings(s)
	want, bad := false, false
	start := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ',' {
			continue
		}
		switch p := s[start:i]; {
		case len(p) == 0:
		case p == "timings":
			want = true
		default:
			bad = true
		}
		start = i + 1
	}
	vrt.Assert((err != nil) == bad, "unknown options are refused, known ones are not")
	if bad {
		vrt.Reach("unknown")
		return
	}
	vrt.Assert(on == want, "timings are asked for by naming them")
	if on {
		vrt.Reach("on")
	} else {
		vrt.Reach("off")
	}
}

type vTiming struct {
	Rule_name *string `json:"rule_name"`
	Duration  *int    `json:"duration"`
	Calls     *int    `json:"calls"`
}

type vTimings struct {
	Rules []vTiming `json:"rules"`
}

// vTimedRule reports numbers, taking the given time for the set-up and each call.
func vTimedRule(name string, setup, call int, calls map[string]uint64, times map[string]int64) rule.Rule {
	step := func(n int) {
		calls[name]++
		times[name] += int64(n)
		vclock.Work(n)
	}
	return rule.Rule{Name: name, Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		step(setup)
		return rule.RuleListeners{ast.KindNumericLiteral: func(n *ast.Node) {
			step(call)
			ctx.ReportNode(n, rule.RuleMessage{Id: "num", Description: name + ":" + n.Text()})
		}}
	}}
}

// Headless runs with and without timings, of one file with none to two numbers or two
// files, with none to two rules of several costs, or a broken payload: the
// timings come last, in nanoseconds, for each rule that ran and no other; the other messages are
// the same.
//
//vrt:opt must=timed,plain,failed weight=15
func Verif_HeadlessTimings() {
	vclock.Reset()
	files := map[string]string{"tsconfig.json": vTsconfig, "a.ts": []string{"x", "1;", "1 + 2"}[vrt.Choice("text", 3)]}
	names := []string{"", "r1", "r1,r2", "r2,r1"}[vrt.Choice("rules", 4)]
	confs := []string{"a.ts:" + names}
	if vrt.Bool("second") {
		files["b.ts"] = "3"
		confs = append(confs, "b.ts:r2")
	}
	stdin := vPayload(confs...)
	broken := vrt.Bool("broken")
	if broken {
		stdin = stdin[1:]
	}
	debug := vrt.Choice("debug", 4)
	args := [][]string{nil, {"-debug", "timings"}, {"--debug=,timings"}, {"-debug", ""}}[debug]
	calls, times := map[string]uint64{}, map[string]int64{}
	costs := []int{3, 999999999, 1, 40}
	cost := vrt.Choice("cost", 3)
	rules := []rule.Rule{vTimedRule("r1", costs[cost], 5, calls, times), vTimedRule("r2", 3, costs[cost+1], calls, times)}
	var out, plain []byte
	var code, code0 int
	vWithRules(rules, func() {
		plain, code0 = vHeadlessIn(&vOS{fs: vfix.NewMemFS(), stdin: stdin}, files, nil)
		clear(calls)
		clear(times)
		out, code = vHeadlessIn(&vOS{fs: vfix.NewMemFS(), stdin: stdin}, files, args)
	})
	fs, whole := vFrames(out)
	ps, whole0 := vFrames(plain)
	vrt.Assert(whole && whole0, "the output is whole messages")
	vrt.Assert(code == code0, "timings do not change the outcome")
	var timing []vFrame
	for i, f := range fs {
		if f.kind == 2 {
			vrt.Assert(i == len(fs)-1, "timings come last")
			timing = append(timing, f)
		}
	}
	fs = fs[:len(fs)-len(timing)]
	vrt.Assert(vBodies(fs) == vBodies(ps), "the other messages are those of a run without timings")
	if broken {
		vrt.Assert(code == 1 && len(timing) == 0, "a failed run has none")
		vrt.Reach("failed")
		return
	}
	vrt.Assert(code == 0, "the run succeeds")
	if debug != 1 && debug != 2 {
		vrt.Assert(len(timing) == 0, "they are not written unless asked for")
		vrt.Reach("plain")
		return
	}
	vrt.Assert(len(timing) == 1, "they are written once")
	var got vTimings
	vrt.Assert(json.Unmarshal(timing[0].body, &got) == nil && got.Rules != nil, "the message is a JSON document")
	vrt.Assert(len(got.Rules) == len(calls), "there is one for each rule that ran")
	last := -1
	lastName := ""
	for _, r := range got.Rules {
		vrt.Assert(r.Rule_name != nil && r.Duration != nil && r.Calls != nil, "each has a name, a time and a number of calls")
		vrt.Assert(uint64(*r.Calls) == calls[*r.Rule_name] && *r.Calls > 0, "it counts every call")
		if vrt.Symbolic() {
			vrt.Assert(int64(*r.Duration) == times[*r.Rule_name], "it adds up the nanoseconds")
		}
		vrt.Assert(last < 0 || *r.Duration < last || *r.Duration == last && *r.Rule_name > lastName, "the slowest comes first")
		last, lastName = *r.Duration, *r.Rule_name
	}
	vrt.Reach("timed")
}

func vBodies(fs []vFrame) string {
	var s []string
	for _, f := range fs {
		s = append(s, string([]byte{'0' + f.kind})+string(f.body))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}
