package main

import (
	"reflect"

	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vClean bounds a text to printable ASCII that JSON strings hold unescaped.
func vClean(name string, max int) string {
	s := vrt.Str(name, max)
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
	return s
}

// vText is a JSON string literal and the text it stands for.
func vText(name string) (lit, val string) {
	switch vrt.Choice(name+".form", 6) {
	case 0:
		s := vClean(name, 2)
		return `"` + s + `"`, s
	case 1:
		return `"a\"\\\/b"`, `a"\/b`
	case 2:
		return `"\b\f\n\r\t"`, "\b\f\n\r\t"
	case 3:
		return `"\u0041\u00e9\ud83d\ude00"`, "Aé😀"
	case 4:
		return `"é😀 "`, "é😀 "
	}
	s := vClean(name, 1)
	return `"C:\\` + s + `"`, `C:\` + s
}

// vInteger: is s a JSON integer, and which (saturating)?
func vInteger(s string) (int, bool) {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n' || s[0] == '\r') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\t' || s[len(s)-1] == '\n' || s[len(s)-1] == '\r') {
		s = s[:len(s)-1]
	}
	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg, s = true, s[1:]
	}
	if len(s) == 0 || (len(s) > 1 && s[0] == '0') {
		return 0, false
	}
	v := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

// The version member is any text of up to four bytes: 2 selects the current
// format, 0 the first one, and every other value or text is refused.
//
//vrt:opt must=v1,v2,refused,malformed weight=25
func Verif_VersionGate() {
	v := vrt.Str("version", 3+vrt.Tier())
	doc := `{"version":` + v + `,"configs":[{"file_paths":["b"],"rules":[{"name":"r"}]}],"files":[{"file_path":"a","rules":["q"]}]}`
	p, err := deserializePayload([]byte(doc))
	n, ok := vInteger(v)
	switch {
	case ok && n == 2:
		vrt.Reach("v2")
		vrt.Assert(err == nil && p != nil && p.Version == 2 && len(p.Configs) == 1 && len(p.Configs[0].FilePaths) == 1 && p.Configs[0].FilePaths[0] == "b", "version 2 is read as the current format")
	case ok && n == 0:
		vrt.Reach("v1")
		vrt.Assert(err == nil && p != nil && len(p.Configs) == 1 && len(p.Configs[0].FilePaths) == 1 && p.Configs[0].FilePaths[0] == "a", "version 0 is read as the first format")
	case ok:
		vrt.Reach("refused")
		vrt.Assert(err != nil && p == nil, "every other version is refused")
	default:
		vrt.Reach("malformed")
		vrt.Assert(err != nil && p == nil, "a version that is no integer is refused")
	}
}

// First-format payloads with up to three files of up to two rules, with
// arbitrary names: one config per file, in order, with exactly its path and
// rules, without options; an empty list of files is refused.
//
//vrt:opt must=empty,converted weight=25
func Verif_FirstFormat() {
	n := vrt.Choice("files", 3+vrt.Tier())
	doc := `{`
	if vrt.Bool("explicit") {
		doc += `"version":0,`
	}
	doc += `"files":[`
	var paths []string
	var rules [][]string
	for i := 0; i < n; i++ {
		if i > 0 {
			doc += ","
		}
		pl, pv := vText("path")
		doc += `{"file_path":` + pl + `,"rules":[`
		var rs []string
		for j, k := 0, vrt.Choice("rules", 3-i%2); j < k; j++ {
			if j > 0 {
				doc += ","
			}
			r := vClean("rule", 1)
			doc += `"` + r + `"`
			rs = append(rs, r)
		}
		doc += `]}`
		paths = append(paths, pv)
		rules = append(rules, rs)
	}
	doc += `]}`
	p, err := deserializePayload([]byte(doc))
	if n == 0 {
		vrt.Reach("empty")
		vrt.Assert(err != nil && p == nil, "a first-format payload without files is refused")
		return
	}
	vrt.Assert(err == nil && p != nil, "a well-formed payload is accepted")
	vrt.Assert(p.Version == 2 && !p.ReportSyntactic && !p.ReportSemantic && len(p.SourceOverrides) == 0, "no overrides or type-error reports are invented")
	vrt.Assert(len(p.Configs) == n, "one config per file")
	for i, c := range p.Configs {
		vrt.Assert(len(c.FilePaths) == 1 && c.FilePaths[0] == paths[i], "each config has its file's path")
		vrt.Assert(len(c.Rules) == len(rules[i]), "each config has its file's rules")
		for j, r := range c.Rules {
			vrt.Assert(r.Name == rules[i][j] && r.Options == nil, "rules keep their name and order and have no options")
		}
	}
	vrt.Reach("converted")
}

// Current-format payloads with up to two configs of up to two files and two
// rules with arbitrary names, options of each JSON kind, source overrides and
// both type-error flags present or absent (all combinations without configs): the decoded payload says exactly
// that. Unknown members are ignored.
//
//vrt:opt must=accepted,overrides weight=40
func Verif_CurrentFormat() {
	n := vrt.Choice("configs", 3)
	doc := `{"version":2`
	if n != 2 && vrt.Bool("unknown") {
		doc += `,"future":{"x":[1]}`
	}
	doc += `,"configs":[`
	type rl struct {
		name string
		opt  any
	}
	var paths [][]string
	var rules [][]rl
	opts := []string{"", `{"a":[1,"x",true,null]}`, `[]`, `"s"`, `null`, `-1.5`, `false`}
	vals := []any{nil, map[string]any{"a": []any{float64(1), "x", true, nil}}, []any{}, "s", nil, -1.5, false}
	for i := 0; i < n; i++ {
		if i > 0 {
			doc += ","
		}
		doc += `{"file_paths":[`
		var ps []string
		for j, k := 0, vrt.Choice("paths", 3-i); j < k; j++ {
			if j > 0 {
				doc += ","
			}
			if i+j == 0 {
				l, v := vText("path")
				doc += l
				ps = append(ps, v)
			} else {
				s := vClean("path", 1)
				doc += `"` + s + `"`
				ps = append(ps, s)
			}
		}
		doc += `],"rules":[`
		var rs []rl
		for j, k := 0, vrt.Choice("rules", 3-i); j < k; j++ {
			if j > 0 {
				doc += ","
			}
			nm := vClean("rule", 1)
			doc += `{"name":"` + nm + `"`
			r := rl{name: nm}
			if i+j == 0 {
				o := vrt.Choice("options", len(opts))
				if o > 0 {
					doc += `,"options":` + opts[o]
				}
				r.opt = vals[o]
			}
			doc += `}`
			rs = append(rs, r)
		}
		doc += `]}`
		paths = append(paths, ps)
		rules = append(rules, rs)
	}
	doc += `]`
	p := vPayloadTail(doc, n == 0)
	vrt.Assert(p.Version == 2 && len(p.Configs) == n, "every config is there")
	for i, c := range p.Configs {
		vrt.Assert(len(c.FilePaths) == len(paths[i]) && len(c.Rules) == len(rules[i]), "every file and rule is there")
		for j, s := range c.FilePaths {
			vrt.Assert(s == paths[i][j], "file paths keep their text and order")
		}
		for j, r := range c.Rules {
			vrt.Assert(r.Name == rules[i][j].name, "rules keep their name and order")
			vrt.Assert(reflect.DeepEqual(r.Options, rules[i][j].opt), "rules keep their options")
		}
	}
	vrt.Reach("accepted")
}

func vPayloadTail(doc string, all bool) *headlessPayload {
	syn, sem := 2, 0
	has := false
	if all {
		syn, sem = vrt.Choice("syntactic", 3), vrt.Choice("semantic", 3)
		has = vrt.Bool("override")
	} else if vrt.Bool("swap") {
		syn, sem = sem, syn
		has = true
	}
	tf := []string{"", "false", "true"}
	if syn > 0 {
		doc += `,"report_syntactic":` + tf[syn]
	}
	if sem > 0 {
		doc += `,"report_semantic":` + tf[sem]
	}
	var ok, ov string
	if has {
		ok, ov = vClean("override.path", 1), vClean("override.text", 1)
		doc += `,"source_overrides":{"` + ok + `":"` + ov + `\n","/z":""}`
	}
	doc += `}`
	p, err := deserializePayload([]byte(doc))
	vrt.Assert(err == nil && p != nil, "a well-formed payload is accepted")
	vrt.Assert(p.ReportSyntactic == (syn == 2) && p.ReportSemantic == (sem == 2), "the type-error flags are the payload's own")
	if has {
		vrt.Reach("overrides")
		z, zok := p.SourceOverrides["/z"]
		vrt.Assert(len(p.SourceOverrides) == 2 && p.SourceOverrides[ok] == ov+"\n" && zok && z == "", "source overrides keep their paths and texts")
	} else {
		vrt.Assert(len(p.SourceOverrides) == 0, "no override is invented")
	}
	return p
}

// A valid payload of either format cut after any byte before its last.
//
//vrt:opt must=cut weight=10
func Verif_TruncatedPayload() {
	doc := `{"version":2,"configs":[{"file_paths":["/a.ts"],"rules":[{"name":"r","options":{}}]}],"report_semantic":true}`
	if vrt.Bool("first") {
		doc = `{"files":[{"file_path":"/a.ts","rules":["r"]}]}`
	}
	k := vrt.Int("at", 0, 107)
	vrt.Assume(k < len(doc))
	p, err := deserializePayload([]byte(doc[:k]))
	vrt.Reach("cut")
	vrt.Assert(err != nil && p == nil, "a truncated payload is refused as a whole")
}

// Any payload of up to four bytes (five in the thorough tier) is refused,
// except objects without any member of either format, which have no files.
//
//vrt:opt must=refused weight=10
func Verif_TinyPayload() {
	p, err := deserializePayload([]byte(vrt.Str("doc", 4+vrt.Tier())))
	vrt.Reach("refused")
	vrt.Assert(err != nil && p == nil, "a payload without version and files is refused")
}
