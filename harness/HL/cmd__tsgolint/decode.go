package main

import (
	"strings"

	"github.com/go-json-experiment/json"
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// The wire format as the client reads it.
type vwRange struct {
	Pos int `json:"pos"`
	End int `json:"end"`
}
type vwMsg struct {
	Id          string `json:"id"`
	Description string `json:"description"`
	Help        string `json:"help"`
}
type vwFix struct {
	Text  string  `json:"text"`
	Range vwRange `json:"range"`
}
type vwSug struct {
	Message vwMsg   `json:"message"`
	Fixes   []vwFix `json:"fixes"`
}
type vwLabel struct {
	Label string  `json:"label"`
	Range vwRange `json:"range"`
}
type vwDiag struct {
	Kind        int       `json:"kind"`
	Range       *vwRange  `json:"range"`
	Message     vwMsg     `json:"message"`
	FilePath    *string   `json:"file_path"`
	Labels      []vwLabel `json:"labeled_ranges"`
	Rule        *string   `json:"rule"`
	Fixes       []vwFix   `json:"fixes"`
	Suggestions []vwSug   `json:"suggestions"`
}
type vwTiming struct {
	Rules []struct {
		Name     string `json:"rule_name"`
		Duration uint64 `json:"duration"`
		Calls    uint64 `json:"calls"`
	} `json:"rules"`
}
type vwError struct {
	Error string `json:"error"`
}

func vDecode(body []byte) (d vwDiag) {
	err := json.Unmarshal(body, &d)
	vrt.Assert(err == nil, "the message is a JSON document")
	return d
}

const vTsconfig = `{"compilerOptions":{"lib":["es5"],"types":[],"target":"es2022","module":"esnext"},"files":["a.ts"]}`

// vNumRule reports every numeric literal.
func vNumRule(name string) rule.Rule {
	return rule.Rule{Name: name, Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		return rule.RuleListeners{ast.KindNumericLiteral: func(n *ast.Node) {
			ctx.ReportNode(n, rule.RuleMessage{Id: "num", Description: name + ":" + n.Text()})
		}}
	}}
}

// vWithRules runs f with the given rules instead of the built-in ones.
func vWithRules(rs []rule.Rule, f func()) {
	old := allRules
	allRules = rs
	defer func() { allRules = old }()
	f()
}

// vPayload is a version 2 payload; each configuration is "file,file:rule,rule".
func vPayload(configs ...string) string {
	var cs []string
	for _, c := range configs {
		fs, rs, _ := strings.Cut(c, ":")
		var fl, rl []string
		for _, f := range strings.Split(fs, ",") {
			fl = append(fl, `"`+vRoot+"/"+f+`"`)
		}
		if rs != "" {
			for _, r := range strings.Split(rs, ",") {
				rl = append(rl, `{"name":"`+r+`"}`)
			}
		}
		cs = append(cs, `{"file_paths":[`+strings.Join(fl, ",")+`],"rules":[`+strings.Join(rl, ",")+`]}`)
	}
	return `{"version":2,"configs":[` + strings.Join(cs, ",") + `]}`
}
