package utils

import (
	"strings"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/project"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type vFS struct {
	*vfix.MemFS
	cs bool
}

func (f *vFS) UseCaseSensitiveFileNames() bool { return f.cs }

const vFile = "/p/a/b/x.ts"

// configs 0..2 sit on the way from the file to the root, the rest is reached by
// references only
var vConfigs = []string{"/p/a/b/tsconfig.json", "/p/a/tsconfig.json", "/p/tsconfig.json", "/p/r1/tsconfig.json", "/p/r2/tsconfig.build.json"}
var vRefPath = []string{"/p/a/b", "/p/a", "/p/tsconfig.json", "/p/r1", "/p/r2/tsconfig.build.json"}
var vKind = []string{"k0", "k1", "k2", "k3", "k4"}
var vRef = []string{"r0", "r1", "r2", "r3", "r4"}

// what a config is to the file
const (
	vkOther   = iota // holds other files only
	vkHas            // holds the file
	vkNone           // cannot be read
	vkEmpty          // a solution: no files of its own
	vkCompHas        // composite and holds the file
	vkComp           // composite, holds other files only, its patterns do not match
	vkCompPos        // composite, would match the file but does not hold it
	vkNoSol          // holds other files and disables solution searching
	vkinds
)

// one parsed composite config gives the patterns of all
var vComposite, vCompositeWide *tsoptions.ParsedCommandLine

func init() {
	fs := vfix.NewMemFS("/p/c/tsconfig.json", `{"compilerOptions":{"composite":true},"include":["src/*.ts"]}`, "/p/d/tsconfig.json", `{"compilerOptions":{"composite":true},"include":["../a/b/*.ts"],"exclude":["../a/b/x.ts"]}`)
	fs.Files["/p/c/src/y.ts"] = ""
	fs.Files["/p/a/b/z.ts"] = ""
	host := NewCompilerHost("/p", fs, "/lib", nil, nil)
	vComposite, _ = tsoptions.GetParsedCommandLineOfConfigFile("/p/c/tsconfig.json", &core.CompilerOptions{}, nil, host, nil)
	vCompositeWide, _ = tsoptions.GetParsedCommandLineOfConfigFile("/p/d/tsconfig.json", &core.CompilerOptions{}, nil, host, nil)
}

type vWorld struct {
	kinds  []int
	refs   [][]int
	exists [3]bool
	known  bool // whether the registry answers ancestor queries itself
	loads  int
	memo   map[int]*tsoptions.ParsedCommandLine
	noMemo bool
}

func (w *vWorld) next(from int) string {
	for i := from; i < 3; i++ {
		if w.exists[i] {
			return vConfigs[i]
		}
	}
	return ""
}

func vIndex(name string) int {
	for i, c := range vConfigs {
		if c == name {
			return i
		}
	}
	return -1
}

func (w *vWorld) parsed(i int) *tsoptions.ParsedCommandLine {
	k := w.kinds[i]
	if k == vkNone {
		return nil
	}
	opt := &core.CompilerOptions{}
	var files []string
	switch k {
	case vkOther, vkNoSol:
		files = []string{"/p/q.ts", "/p/z/x.ts"}
	case vkHas:
		files = []string{"/p/q.ts", vFile}
	case vkEmpty:
	case vkCompHas:
		files = []string{vFile}
	case vkComp, vkCompPos:
		files = []string{"/p/c/src/x.ts"}
	}
	if k == vkNoSol {
		opt.DisableSolutionSearching = core.TSTrue
	}
	if k >= vkCompHas && k <= vkCompPos {
		opt.Composite = core.TSTrue
	}
	c := tsoptions.NewParsedCommandLine(opt, files, tspath.ComparePathsOptions{UseCaseSensitiveFileNames: true, CurrentDirectory: "/p"})
	c.ConfigFile = vComposite.ConfigFile
	if k == vkCompPos {
		c.ConfigFile = vCompositeWide.ConfigFile
	}
	for _, j := range w.refs[i] {
		c.ParsedConfig.ProjectReferences = append(c.ParsedConfig.ProjectReferences, &core.ProjectReference{Path: vRefPath[j]})
	}
	return c
}

func (w *vWorld) env() *project.Env {
	return &project.Env{
		Compute: func(file string, skip bool) string {
			if i := vIndex(file); i >= 0 {
				if !skip {
					return vConfigs[i]
				}
				return w.next(i + 1)
			}
			if file != vFile {
				return ""
			}
			if skip {
				return w.next(1)
			}
			return w.next(0)
		},
		Find: func(name string, path, file tspath.Path) *tsoptions.ParsedCommandLine {
			w.loads++
			i := vIndex(name)
			vrt.Assert(i >= 0 && string(path) == name, "only configs of the world are asked for, by their own path")
			if w.noMemo {
				return w.parsed(i)
			}
			if c, ok := w.memo[i]; ok {
				return c
			}
			c := w.parsed(i)
			w.memo[i] = c
			return c
		},
		Ancestor: func(file string, path tspath.Path, config string) string {
			if !w.known {
				return ""
			}
			return w.next(vIndex(config) + 1)
		},
	}
}

func (w *vWorld) has(i int) bool { return w.kinds[i] == vkHas || w.kinds[i] == vkCompHas }

// answer is the specification: nearest config first, then the configs it
// refers to level by level in listing order, then the next config up.
func (w *vWorld) answer() int {
	seen := make([]bool, len(w.kinds))
	for c := 0; c < 3; c++ {
		if !w.exists[c] {
			continue
		}
		queue := []int{c}
		for len(queue) > 0 {
			i := queue[0]
			queue = queue[1:]
			if seen[i] {
				continue
			}
			seen[i] = true
			if w.has(i) {
				return i
			}
			if w.kinds[i] != vkNone {
				queue = append(queue, w.refs[i]...)
			}
		}
	}
	return -1
}

// holds: some config that the search may consult holds the file
func (w *vWorld) holds() bool {
	r := make([]bool, len(w.kinds))
	for c := 0; c < 3; c++ {
		r[c] = w.exists[c]
	}
	for range w.kinds {
		for i := range w.kinds {
			if r[i] && w.kinds[i] != vkNone {
				for _, j := range w.refs[i] {
					r[j] = true
				}
			}
		}
	}
	for i := range w.kinds {
		if r[i] && w.has(i) {
			return true
		}
	}
	return false
}

func (w *vWorld) resolver() *TsConfigResolver {
	w.memo = map[int]*tsoptions.ParsedCommandLine{}
	project.DefaultEnv = w.env()
	return NewTsConfigResolver(&vFS{vfix.NewMemFS(), true}, "/p")
}

func (w *vWorld) check() {
	r := w.resolver()
	got, found := r.FindTsconfigForFile(vFile, false)
	vrt.Observe("config", got)
	vrt.Assert(found == (got != ""), "found iff a config is named")
	if !found {
		vrt.Assert(!w.holds(), "a file held by a config in reach is matched")
		vrt.Reach("unmatched")
	} else {
		i := vIndex(got)
		vrt.Assert(i >= 0 && w.has(i), "the config named holds the file")
		if i > 2 {
			vrt.Reach("reference")
		} else if i > 0 {
			vrt.Reach("ancestor")
		} else {
			vrt.Reach("nearest")
		}
	}
	want := ""
	if i := w.answer(); i >= 0 {
		want = vConfigs[i]
	}
	vrt.Assert(got == want, "the config named is the first one that holds the file: nearest first, then by references, then up")
	m := w.resolver().FindTsConfigParallel([]string{vFile})
	vrt.Assert(len(m) == 1 && m[vFile] == want, "the parallel resolution agrees")
}

func vWorldOf(kinds int, three bool, pick func(i, j int) bool) *vWorld {
	w := &vWorld{known: vrt.Bool("known")}
	n := 5
	w.kinds = make([]int, n)
	w.refs = make([][]int, n)
	for i := 0; i < 3; i++ {
		w.exists[i] = (i < 2 || three) && vrt.Bool("exists")
	}
	for i := 0; i < n; i++ {
		w.kinds[i] = vrt.Choice(vKind[i], kinds)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if pick(i, j) && vrt.Bool(vRef[i]) {
				w.refs[i] = append(w.refs[i], j)
			}
		}
	}
	return w
}

// Worlds of two nested configs and two reached by references only (cycles and
// self references included); each config holds the file, or other files, or is
// unreadable or empty; the references of each are any subset of the others.
//
//vrt:opt must=nearest,ancestor,reference,unmatched weight=30
func Verif_ReferenceGraphs() {
	w := vWorldOf(3, false, func(i, j int) bool {
		return i != 2 && j != 2 && (j == 3 || j == 4 || (i == 3 && j == 1))
	})
	w.check()
}

// Three nested configs, each with all eight relations to the file, one of them
// referring to a further config.
//
//vrt:opt must=nearest,ancestor,reference,unmatched weight=30
func Verif_Ancestors() {
	w := &vWorld{known: vrt.Bool("known"), kinds: make([]int, 5), refs: make([][]int, 5)}
	for i := 0; i < 3; i++ {
		w.exists[i] = vrt.Bool("exists")
	}
	from := vrt.Choice("from", 3)
	for i := 0; i < 4; i++ {
		if i < 3 && !w.exists[i] {
			continue
		}
		w.kinds[i] = vrt.Choice(vKind[i], vkinds)
	}
	w.refs[from] = []int{3}
	w.check()
}

// A config lists one file and one file is asked for: either name is any letter
// after one of a few directory spellings, on a case-sensitive and a
// case-insensitive file system; they match iff they are the same file.
//
//vrt:opt must=same,different,folded weight=15
func Verif_SameFile() {
	cs := vrt.Bool("cs")
	dirs := []string{"/p/a/", "/p/A/", "/p/a/../a/", "a/", "/p/b/", "/p/./a/"}
	norm := []string{"/p/a/", "/p/A/", "/p/a/", "/p/a/", "/p/b/", "/p/a/"}
	di, dj := vrt.Choice("listed.dir", len(dirs)), vrt.Choice("asked.dir", len(dirs))
	// listed names come normalised from the parser
	vrt.Assume(di < 2 || di == 4)
	a, b := vrt.StrN("listed", 2), vrt.StrN("asked", 2)
	for i := 0; i < 2; i++ {
		vrt.Assume(a[i] >= 'A' && a[i] <= 'z' && b[i] >= 'A' && b[i] <= 'z')
		vrt.Assume(a[i] != '\\' && b[i] != '\\')
	}
	listed, asked := dirs[di]+a+".ts", dirs[dj]+b+".ts"
	lp, ap := norm[di]+a+".ts", norm[dj]+b+".ts"
	cfg := tsoptions.NewParsedCommandLine(&core.CompilerOptions{}, []string{"/p/zz.ts", listed}, tspath.ComparePathsOptions{UseCaseSensitiveFileNames: cs, CurrentDirectory: "/p"})
	project.DefaultEnv = &project.Env{
		Compute: func(file string, skip bool) string {
			if file == asked && !skip {
				return "/p/tsconfig.json"
			}
			return ""
		},
		Find: func(name string, path, file tspath.Path) *tsoptions.ParsedCommandLine {
			if name == "/p/tsconfig.json" {
				return cfg
			}
			return nil
		},
		Ancestor: func(string, tspath.Path, string) string { return "" },
	}
	r := NewTsConfigResolver(&vFS{vfix.NewMemFS(), cs}, "/p")
	_, found := r.FindTsconfigForFile(asked, false)
	m := r.FindTsConfigParallel([]string{asked})
	same := lp == ap
	if !cs {
		same = vLower(lp) == vLower(ap)
		if same && lp != ap {
			vrt.Reach("folded")
		}
	}
	if same {
		vrt.Reach("same")
	} else {
		vrt.Reach("different")
	}
	vrt.Assert(found == same, "the config is found iff it lists the file")
	vrt.Assert((m[asked] != "") == same, "the parallel resolution agrees on the file")
}

func vLower(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		b.WriteByte(byte(vrt.Ite(c >= 'A' && c <= 'Z', int(c)+32, int(c))))
	}
	return b.String()
}
