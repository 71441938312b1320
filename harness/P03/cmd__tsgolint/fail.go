package main

import (
	"strings"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/project"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vGone makes the project system assign b.ts to a configuration whose file has
// disappeared by the time its program is built.
func vGone(env *project.Env) {
	compute, find := env.Compute, env.Find
	gone := vRoot + "/gone/tsconfig.json"
	env.Compute = func(file string, skip bool) string {
		if file == vRoot+"/b.ts" {
			return gone
		}
		return compute(file, skip)
	}
	env.Find = func(name string, path, file tspath.Path) *tsoptions.ParsedCommandLine {
		if name == gone {
			return tsoptions.NewParsedCommandLine(&core.CompilerOptions{}, []string{vRoot + "/b.ts"}, tspath.ComparePathsOptions{UseCaseSensitiveFileNames: true, CurrentDirectory: vRoot})
		}
		return find(name, path, file)
	}
}

// One project lints with up to two diagnostics, another cannot be built: under
// every order of the two and every schedule of the linting phase with one preemption (two thorough) the output is
// whole frames only, the last one is the only error, the diagnostics before it
// are complete, and the exit code is 1.
//
//vrt:opt must=before,after weight=20 pre=2 native=off
func Verif_LinterFailure() {
	old := allRules
	r := vNumRule("r1")
	run := r.Run
	made := false
	r.Run = func(ctx rule.RuleContext, options any) rule.RuleListeners {
		made = true
		vrt.Concurrent(vrt.Tier() + 1)
		return run(ctx, options)
	}
	allRules = []rule.Rule{r}
	defer func() { allRules = old }()
	vrt.MapOrder(2)
	src := []string{"x", "x;1", "x;1;2"}[vrt.Choice("numbers", 3)]
	vMutateEnv = vGone
	defer func() { vMutateEnv = nil }()
	e := &vOS{fs: vfix.NewMemFS(), stdin: `{"version":2,"configs":[{"file_paths":["` + vRoot + `/a.ts","` + vRoot + `/b.ts"],"rules":[{"name":"r1"}]}]}`}
	out, code := vHeadlessIn(e, map[string]string{"tsconfig.json": vTsconfig, "a.ts": src, "b.ts": "3"}, nil)
	fs, whole := vFrames(out)
	vrt.Assert(code == 1, "a linter failure exits with 1")
	vrt.Assert(whole, "the output is whole frames only")
	vrt.Assert(len(fs) > 0 && fs[len(fs)-1].kind == 0, "the last frame tells the failure")
	n := len(fs) - 1
	for _, f := range fs[:n] {
		vrt.Assert(f.kind == 1, "the frames before it are diagnostics")
		vrt.Assert(strings.Contains(string(f.body), "/a.ts"), "of the project that was linted")
	}
	want := 0
	if made {
		want = strings.Count(src, ";")
		vrt.Reach("after")
	} else {
		vrt.Reach("before")
	}
	vrt.Assert(n == want, "every report made before the failure is delivered")
}
