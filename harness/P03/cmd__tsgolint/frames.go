package main

import (
	"strings"

	"github.com/go-json-experiment/json"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vNums lists the numeric literals of src with their positions.
func vNums(src string) (pos []int) {
	for i := 0; i < len(src); i++ {
		if src[i] >= '0' && src[i] <= '9' {
			pos = append(pos, i)
		}
	}
	return
}

// Two files (inside or outside the project) with up to two numbers each, each
// with a configuration that selects none, one or both of two rules in either
// order (or one rule twice), with and without timings: every report of every
// selected rule on every listed file arrives in exactly one message, those of a
// file in source order and rule order; nothing else is sent; timings come last.
//
//vrt:opt must=silent,both,outside,timed weight=30
func Verif_Frames() {
	srcs := []string{"x", "x;1", "x;1;2"}
	a, b := srcs[vrt.Choice("a", 3)], srcs[vrt.Choice("b", 3)]
	lists := []string{"", "r1", "r2", "r1,r2", "r2,r1"}
	ra, rb := lists[vrt.Choice("ra", 5)], lists[vrt.Choice("rb", 5)]
	outside := vrt.Bool("outside")
	var args []string
	timed := vrt.Bool("timed")
	if timed {
		args = []string{"-debug", "timings"}
	}
	name := "b.ts"
	cfg := strings.Replace(vTsconfig, `"a.ts"`, `"a.ts","b.ts","c.ts"`, 1)
	if outside {
		cfg = strings.Replace(vTsconfig, `"a.ts"`, `"a.ts","c.ts"`, 1)
	}
	vWithRules([]rule.Rule{vNumRule("r1"), vNumRule("r2"), vNumRule("r3")}, func() {
		out, code := vHeadless(map[string]string{"tsconfig.json": cfg, "a.ts": a, "b.ts": b, "c.ts": "7"}, vPayload("a.ts:"+ra, "b.ts:"+rb), args)
		fs, whole := vFrames(out)
		vrt.Assert(code == 0, "linting succeeds")
		vrt.Assert(whole, "the output is whole frames")
		if timed {
			vrt.Assert(len(fs) > 0 && fs[len(fs)-1].kind == 2, "the timings come last")
			var t vwTiming
			vrt.Assert(json.Unmarshal(fs[len(fs)-1].body, &t) == nil, "as a JSON document")
			vCheckTimings(t, ra, rb, a, b)
			fs = fs[:len(fs)-1]
			vrt.Reach("timed")
		}
		want := map[string][]string{"a.ts": vExpect(a, ra), name: vExpect(b, rb)}
		got := map[string][]string{}
		for _, f := range fs {
			vrt.Assert(f.kind == 1, "every other message is a diagnostic")
			d := vDecode(f.body)
			vrt.Assert(d.FilePath != nil && strings.HasPrefix(*d.FilePath, vRoot+"/"), "of a file")
			vrt.Assert(d.Rule != nil && d.Range != nil && d.Message.Id == "num", "by a rule")
			vrt.Assert(strings.HasPrefix(d.Message.Description, *d.Rule+":"), "that is named")
			n := (*d.FilePath)[len(vRoot)+1:]
			got[n] = append(got[n], *d.Rule+"@"+string(rune('0'+d.Range.Pos)))
			vrt.Assert(d.Range.End == d.Range.Pos+1, "with its range")
		}
		for _, n := range []string{"a.ts", "b.ts", "c.ts"} {
			vrt.Assert(strings.Join(got[n], " ") == strings.Join(want[n], " "), "the diagnostics of each file arrive once and in order")
		}
		if len(fs) == 0 {
			vrt.Reach("silent")
		}
		if len(got["a.ts"]) > 1 && len(got["b.ts"]) > 1 {
			vrt.Reach("both")
		}
		if outside && len(got["b.ts"]) > 0 {
			vrt.Reach("outside")
		}
	})
}

func vExpect(src, rules string) (out []string) {
	for _, p := range vNums(src) {
		if rules != "" {
			for _, r := range strings.Split(rules, ",") {
				out = append(out, r+"@"+string(rune('0'+p)))
			}
		}
	}
	return
}

func vCheckTimings(t vwTiming, ra, rb, a, b string) {
	calls := map[string]int{}
	for i, rs := range []string{ra, rb} {
		if rs != "" {
			for _, r := range strings.Split(rs, ",") {
				calls[r] += 1 + len(vNums([]string{a, b}[i]))
			}
		}
	}
	vrt.Assert(len(t.Rules) == len(calls), "each rule that ran is timed once")
	for _, r := range t.Rules {
		vrt.Assert(int(r.Calls) == calls[r.Name], "with the number of its calls")
	}
}

// Every failure before linting: unreadable standard input, unknown working
// directory, malformed or unsupported payload, unknown debug option.
//
//vrt:opt must=stdin,cwd,payload,option,fine weight=2
func Verif_Early() {
	e := &vOS{fs: vfix.NewMemFS()}
	var args []string
	e.stdin = vPayload("a.ts:r1")
	want := ""
	switch vrt.Choice("failure", 6) {
	case 0:
		e.stdinErr = true
		want = "stdin"
		vrt.Reach("stdin")
	case 1:
		vrt.Assume(vrt.Symbolic()) // the directory cannot be made to fail as root
		e.cwdErr = true
		want = "directory"
		vrt.Reach("cwd")
	case 2:
		cut := vrt.Int("cut", 0, len(e.stdin)-1)
		e.stdin = e.stdin[:vrt.Conc(cut)]
		want = "config"
		vrt.Reach("payload")
	case 3:
		e.stdin = `{"version":3,"configs":[]}`
		want = "config"
	case 4:
		args = []string{"-debug", []string{"timing", "timings,x", "x"}[vrt.Choice("option", 3)]}
		vrt.Reach("option")
	case 5:
		args = []string{"-debug", []string{"timings", "timings,", ",timings", "timings,timings"}[vrt.Choice("option", 4)]}
		want = "-"
		vrt.Reach("fine")
	}
	vWithRules([]rule.Rule{vNumRule("r1")}, func() {
		out, code := vHeadlessIn(e, map[string]string{"tsconfig.json": vTsconfig, "a.ts": "1"}, args)
		fs, whole := vFrames(out)
		vrt.Assert(whole, "the output is whole frames")
		switch want {
		case "-":
			vrt.Assert(code == 0 && len(fs) == 2 && fs[0].kind == 1 && fs[1].kind == 2, "valid options are accepted")
		case "":
			vrt.Assert(code == 1 && len(fs) == 0, "a bad option ends the run with 1 and no message")
		default:
			vrt.Assert(code == 1 && len(fs) == 1 && fs[0].kind == 0, "a failure ends the run with 1 and one error message")
			var m vwError
			vrt.Assert(json.Unmarshal(fs[0].body, &m) == nil && strings.Contains(m.Error, want), "that tells what failed")
		}
	})
}
