package utils

import (
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/project"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

func vParallel(files []string) {
	owner := map[string]int{}
	for i, f := range files {
		if _, ok := owner[f]; !ok {
			owner[f] = vrt.Choice(vKind[i], 3)
		}
	}
	// 0: no config; 1: the config holds it; 2: a config exists but does not hold it
	env := &project.Env{
		Compute: func(file string, skip bool) string {
			vrt.Yield()
			if o, ok := owner[file]; ok && o != 0 && !skip {
				return "/cfg" + file + ".json"
			}
			return ""
		},
		Find: func(name string, path, file tspath.Path) *tsoptions.ParsedCommandLine {
			vrt.Yield()
			var l []string
			for f, o := range owner {
				if o == 1 && name == "/cfg"+f+".json" {
					l = append(l, f)
				}
			}
			return tsoptions.NewParsedCommandLine(&core.CompilerOptions{}, append(l, "/other.ts"), tspath.ComparePathsOptions{UseCaseSensitiveFileNames: true, CurrentDirectory: "/"})
		},
		Ancestor: func(string, tspath.Path, string) string { return "" },
	}
	project.DefaultEnv = env
	r := NewTsConfigResolver(&vFS{vfix.NewMemFS(), true}, "/")
	vrt.Race(true)
	m := r.FindTsConfigParallel(files)
	vrt.Race(false)
	vrt.Assert(len(m) == len(owner), "every file is answered, and nothing else")
	for f, o := range owner {
		got, ok := m[f]
		want := ""
		if o == 1 {
			want = "/cfg" + f + ".json"
		}
		vrt.Assert(ok && got == want, "each file gets its own config, whatever the schedule")
	}
	vrt.Reach("answered")
}

// Two workers resolve up to three files (one may be given twice), each without
// config, held by its config or not held by it, under every schedule with one
// preemption (two in the thorough tier); unsynchronised accesses are violations.
//
//vrt:opt must=answered weight=25 pre=2
func Verif_Parallel() {
	vrt.Concurrent(1 + vrt.Tier())
	fs := []string{"/a.ts", "/b.ts", "/c.ts"}
	n := vrt.Choice("n", 4)
	fs = fs[:n]
	if n == 3 && vrt.Bool("dup") {
		fs[2] = "/a.ts"
	}
	vParallel(fs)
}
