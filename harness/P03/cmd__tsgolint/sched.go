package main

import (
	"sort"
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// Two files, one with two reports, linted by two workers: under every schedule
// of the linting and writing phases with two preemptions (three thorough) the
// output is whole frames with every report once, those of a file in order, and
// the timings last.
//
//vrt:opt must=done weight=25 pre=3 native=off ckpt=1
func Verif_Schedules() {
	r := vNumRule("r1")
	run := r.Run
	started := false
	r.Run = func(ctx rule.RuleContext, options any) rule.RuleListeners {
		if !started {
			started = true
			vrt.Checkpoint()
			vrt.Concurrent(vrt.Tier() + 2)
		}
		return run(ctx, options)
	}
	cfg := strings.Replace(vTsconfig, `"a.ts"`, `"a.ts","b.ts"`, 1)
	vWithRules([]rule.Rule{r}, func() {
		out, code := vHeadless(map[string]string{"tsconfig.json": cfg, "a.ts": "1;2", "b.ts": "3"}, vPayload("a.ts,b.ts:r1"), []string{"-debug", "timings"})
		fs, whole := vFrames(out)
		vrt.Assert(code == 0 && whole, "the output is whole frames")
		vrt.Assert(len(fs) == 4 && fs[3].kind == 2, "three diagnostics, then the timings")
		var got []string
		for _, f := range fs[:3] {
			vrt.Assert(f.kind == 1, "a diagnostic")
			d := vDecode(f.body)
			got = append(got, (*d.FilePath)[len(vRoot)+1:]+d.Message.Description)
		}
		sort.SliceStable(got, func(i, j int) bool { return got[i][0] < got[j][0] })
		vrt.Assert(strings.Join(got, " ") == "a.tsr1:1 a.tsr1:2 b.tsr1:3", "each report arrives once, those of a file in order")
		vrt.Assert(strings.Contains(string(fs[3].body), `"calls":5`), "with all calls timed")
	})
	vrt.Reach("done")
}
