package main

import (
	"strings"

	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

var vSuppress string

//vrt:replace os.Getenv
func vGetenv(name string) string {
	if name == "OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS" {
		return vSuppress
	}
	return ""
}

// vWant is an expected message of the kind for type and configuration errors.
type vWant struct {
	id, text, help, file string
	pos, end             int
}

func vInternal(out []byte, want []vWant, rules int) {
	fs, whole := vFrames(out)
	vrt.Assert(whole, "the output is whole messages")
	vrt.Assert(len(fs) == len(want)+rules, "there is a message for each error and report, and no other")
	used := make([]bool, len(want))
	for _, f := range fs {
		vrt.Assert(f.kind == 1, "it is a diagnostic message")
		d := vDecode(f.body)
		if d.Kind == 0 {
			rules--
			continue
		}
		vrt.Assert(d.Kind == 1, "it is of the kind for errors outside of rules")
		vrt.Assert(d.Rule == nil && len(d.Fixes) == 0 && len(d.Suggestions) == 0 && len(d.Labels) == 0, "it is not attributed to a rule")
		vrt.Assert(d.FilePath != nil, "it says where it is")
		pos, end := -1, -1
		if d.Range != nil {
			pos, end = d.Range.Pos, d.Range.End
			vrt.Assert(pos >= 0 && end >= pos, "its range is one of the file")
		}
		hit := false
		for i, w := range want {
			if !used[i] && d.Message.Id == w.id && d.Message.Description == w.text && d.Message.Help == w.help && *d.FilePath == vRoot+"/"+w.file && pos == w.pos && end == w.end {
				used[i], hit = true, true
				break
			}
		}
		vrt.Assert(hit, "it is one of the errors, unchanged")
	}
	vrt.Assert(rules == 0, "the rules report as well")
}

func vFlag(name string) (string, bool) {
	switch vrt.Choice(name, 3) {
	case 1:
		return `,"` + name + `":false`, false
	case 2:
		return `,"` + name + `":true`, true
	}
	return "", false
}

// A payload that asks for syntactic and semantic errors (absent, false, true
// each) in a source with two symbolic bytes of padding and one error of either kind, with
// a rule that reports too: the messages are exactly those asked for.
//
//vrt:opt must=syntactic,semantic weight=10
func Verif_HeadlessErrors() {
	a, syntax := vFlag("report_syntactic")
	b, semantic := vFlag("report_semantic")
	pad := vrt.StrN("padding", 2)
	for i := 0; i < 2; i++ {
		vrt.Assume(vrt.Or(vrt.Or(pad[i] == ' ', pad[i] == '\n'), pad[i] == ';'))
	}
	stdin := strings.TrimSuffix(vPayload("a.ts:r1"), "}") + a + b + "}"
	var want []vWant
	if syntax {
		want = append(want, vWant{"TS1109", "Expression expected.", "", "a.ts", 10, 11})
		vrt.Reach("syntactic")
	}
	if semantic {
		want = append(want, vWant{"TS2304", "Cannot find name 'y'.", "", "a.ts", 14, 15})
		vrt.Reach("semantic")
	}
	vWithRules([]rule.Rule{vNumRule("r1")}, func() {
		out, code := vHeadless(map[string]string{"tsconfig.json": vTsconfig, "a.ts": pad + "let x = ; 1;y"}, stdin, nil)
		vrt.Assert(code == 0, "errors in the source are no failure")
		vInternal(out, want, 1)
	})
}

// Two projects, each with a broken or a good configuration (six variants), with
// configuration errors suppressed by the environment or not.
//
//vrt:opt must=broken,suppressed,fine weight=10 native=off
func Verif_HeadlessConfigs() {
	vSuppress = []string{"", "true", "false", "1"}[vrt.Choice("environment", 4)]
	configs := []string{
		`{"compilerOptions":{"lib":["es5"],"types":[]},"files":["X"]}`,
		`{"compilerOptions":{"nope":1},"files":["X"]}`,
		`{"compilerOptions":{"lib":["es5"],"types":[],"baseUrl":"."},"files":["X"]}`,
		`{"files":["X","gone.ts"],"compilerOptions":{"lib":["es5"],"types":[]}}`,
	}
	n := 2 + vrt.Tier()*2
	i, j := vrt.Choice("first", 4), vrt.Choice("second", n)
	var want []vWant
	rules := 2
	for k, c := range []int{i, j} {
		dir := []string{"", "q/"}[k]
		if c == 0 || vSuppress == "true" {
			continue
		}
		rules--
		w := vWant{id: "tsconfig-error", text: "Invalid tsconfig", file: dir + "tsconfig.json"}
		switch c {
		case 1:
			w.help, w.pos, w.end = "Unknown compiler option 'nope'.", 20, 26
		case 2:
			w.help, w.pos, w.end = "Option 'baseUrl' has been removed. Please remove it from your configuration.\nSee https://github.com/oxc-project/tsgolint/issues/351 for more information.", 45, 54
		case 3:
			w.help, w.pos, w.end = "File '"+vRoot+"/"+dir+"gone.ts' not found.", -1, -1
		}
		want = append(want, w)
	}
	files := map[string]string{
		"tsconfig.json": strings.Replace(configs[i], "X", "a.ts", 1), "a.ts": "1",
		"q/tsconfig.json": strings.Replace(configs[j], "X", "b.ts", 1), "q/b.ts": "2",
	}
	vrt.MapOrder(2)
	e := &vOS{fs: vfix.NewMemFS(), stdin: vPayload("a.ts,q/b.ts:r1")}
	vWithRules([]rule.Rule{vNumRule("r1")}, func() {
		out, code := vHeadlessIn(e, files, nil)
		vrt.Assert(code == 0, "a broken configuration is reported and no failure")
		vInternal(out, want, rules)
	})
	if len(want) > 0 {
		vrt.Reach("broken")
	} else if vSuppress == "true" {
		vrt.Reach("suppressed")
	} else {
		vrt.Reach("fine")
	}
}
