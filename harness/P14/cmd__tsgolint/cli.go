package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vCLI runs the command line program in vRoot and returns what it shows.
func vCLI(files map[string]string, args ...string) (shown string, code int) {
	old := os.Args
	defer func() { os.Args = old }()
	os.Args = append([]string{"tsgolint"}, args...)
	out, code := vRunIn(&vOS{fs: vfix.NewMemFS()}, files, runMain)
	shown, _ = vVisible(string(out))
	return shown, code
}

// A project with any of six files (source, below a directory, of a package,
// outside of the project's directory, of no interest, with two reports each), with
// or without a configuration of its own, elsewhere or not there, listing
// files and timings or not: the files linted are those of the project
// in its directory, packages left out; they are listed on request; every report is
// printed once and counted, and the program succeeds. When the configuration
// does not exist or an option is unknown it fails.
//
//vrt:opt must=default,named,missing,option,help,one weight=20
func Verif_Run() {
	files := map[string]string{}
	type src struct {
		name, text string
		in         bool
	}
	two := vrt.Choice("reports", 3)
	all := []src{
		{"a.ts", "import {b} from './s/b'; import {k} from 'k'; import {o} from '../vrt_other/o'; 1;", true},
		{"s/b.ts", "export let b = " + []string{"2; 3;", "2;", "'';"}[two] + "\n", true},
		{"node_modules/k/index.ts", "export let k = 4;\n", false},
		{"readme.md", "5", false},
		{"node_modules.ts", "6;", true},
	}
	var want []string
	reports := 0
	for i, f := range all {
		if i != 1 && i != 2 && !vrt.Bool("has "+f.name) {
			continue
		}
		files[f.name] = f.text
		if f.in {
			want = append(want, f.name)
			if i == 1 {
				reports += 2 - two
			} else {
				reports++
			}
		}
	}
	files["node_modules/k/package.json"] = `{"name":"k","types":"index.ts"}`
	var args []string
	config := vrt.Choice("config", 4)
	opts := `"compilerOptions":{"lib":["es5"],"types":[],"target":"es2022","module":"esnext","moduleResolution":"bundler"}`
	switch config {
	case 1:
		files["tsconfig.json"] = `{` + opts + `}`
	case 2:
		files["conf.json"] = `{` + opts + `}`
		args = append(args, "-tsconfig", "conf.json")
	case 3:
		args = append(args, "--tsconfig=gone.json")
	}
	list := vrt.Bool("list")
	if list {
		args = append(args, "--list-files")
	}
	debug := vrt.Choice("debug", 4)
	if debug > 0 {
		args = append(args, "--debug", []string{"", "timings", ",timings,", "timing"}[debug])
	}
	if vrt.Bool("help") {
		args = append(args, "-h")
		shown, code := vCLI(files, args...)
		vrt.Assert(code == 0 && shown == "", "help is no output and no failure")
		vrt.Reach("help")
		return
	}
	vWithRules([]rule.Rule{vNumRule("r1")}, func() {
		shown, code := vCLI(files, args...)
		if debug == 3 || config == 3 {
			vrt.Assert(code == 1 && shown == "", "an unknown option or a missing configuration is a failure")
			vrt.Reach(map[bool]string{true: "option", false: "missing"}[debug == 3])
			return
		}
		vrt.Assert(code == 0, "reports are no failure")
		lines := strings.Split(shown, "\n")
		listed, printed := map[string]int{}, 0
		total := ""
		table := 0
		for i, l := range lines {
			if n, ok := strings.CutPrefix(l, "Found file: "); ok {
				listed[n]++
				vrt.Assert(printed == 0, "files are listed first")
			} else if strings.HasPrefix(l, "  r1  — r1:") {
				printed++
				vrt.Assert(strings.HasPrefix(lines[i+1], "  ╭─┴──────────( "), "each report has a place")
			} else if strings.HasPrefix(l, "Found ") {
				vrt.Assert(total == "", "there is one summary")
				total = l
			} else if strings.HasPrefix(l, "r1 ") {
				table++
				vrt.Assert(total != "", "timings come after the summary")
			}
		}
		vrt.Assert(printed == reports, "every report about a file of the project is printed once, no other")
		plural := func(n int, s string) string {
			if n == 1 {
				return strconv.Itoa(n) + " " + s
			}
			return strconv.Itoa(n) + " " + s + "s"
		}
		vrt.Assert(strings.HasPrefix(total, "Found "+plural(reports, "error")+" (linted "+plural(len(want), "file")+" with 1 rule in "), "the summary counts reports, files and rules")
		for _, n := range want {
			vrt.Assert(listed[n] == b2n(list), "the files linted are listed on request")
			delete(listed, n)
		}
		for range listed {
			vrt.Fail("only files linted are listed")
		}
		vrt.Assert(table == b2n(debug > 0), "the timings are shown on request")
		if config == 0 {
			vrt.Reach("default")
		} else {
			vrt.Reach("named")
		}
		if reports == 1 && len(want) == 1 {
			vrt.Reach("one")
		}
	})
}

func b2n(b bool) int {
	if b {
		return 1
	}
	return 0
}
