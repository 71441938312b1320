package vlint

import (
	"strconv"
	"strings"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

// Grid is a checked program of a global script, the header, and numbered
// pieces, each a module, which are linted one at a time.
type Grid struct {
	errs   []string
	prog   *compiler.Program
	files  []*ast.SourceFile
	pieces []string
}

// NewGrid builds the program and asks r (nil: none) about all of it once, so
// that types are known before any input is chosen. The name is that of the
// pieces; they get numbers.
func NewGrid(name, options, header string, pieces []string, r *rule.Rule, opts any) *Grid {
	g := &Grid{pieces: pieces}
	base, ext, _ := strings.Cut(name, ".")
	c := Config{Files: []string{"header.ts", header}, Options: options}
	for i, p := range pieces {
		c.Files = append(c.Files, base+strconv.Itoa(i)+"."+ext, p+"\nexport {};\n")
	}
	p, fl := Program(c)
	g.prog, g.files = p, fl[1:]
	var rs []linter.ConfiguredRule
	if r != nil {
		rs = append(rs, linter.ConfiguredRule{Name: r.Name, Run: func(ctx rule.RuleContext) rule.RuleListeners { return r.Run(ctx, opts) }})
	}
	g.run(fl, rs, linter.TypeErrors{ReportSyntactic: true, ReportSemantic: true}, func(d rule.RuleDiagnostic) {})
	return g
}

func (g *Grid) run(fl []*ast.SourceFile, rs []linter.ConfiguredRule, te linter.TypeErrors, on func(d rule.RuleDiagnostic)) {
	err := linter.RunLinterOnProgram(linter.RunLinterOnProgramOptions{
		LogLevel: utils.LogLevelNormal, Program: g.prog, Files: fl, Workers: 1,
		GetRulesForFile: func(f *ast.SourceFile) []linter.ConfiguredRule { return rs },
		OnDiagnostic:    on,
		OnInternalDiagnostic: func(d diagnostic.Internal) {
			e := d.Description
			if d.FilePath != nil {
				e += " in " + *d.FilePath
				for i, f := range g.files {
					if f.FileName() == *d.FilePath {
						e += ": " + g.pieces[i]
					}
				}
			}
			g.errs = append(g.errs, e)
		},
		Fixes:      linter.Fixes{Fix: true, FixSuggestions: true},
		TypeErrors: te,
	})
	if err != nil {
		panic(err)
	}
}

// Lint runs r on piece k alone.
func (g *Grid) Lint(k int, r rule.Rule, opts any) (out []rule.RuleDiagnostic) {
	g.run(g.files[k:k+1], []linter.ConfiguredRule{{Name: r.Name, Run: func(ctx rule.RuleContext) rule.RuleListeners { return r.Run(ctx, opts) }}},
		linter.TypeErrors{}, func(d rule.RuleDiagnostic) { out = append(out, d) })
	return
}

// At is the text of piece k that d is about, and where in the piece it starts.
func (g *Grid) At(k int, d rule.RuleDiagnostic) (string, int) {
	return g.files[k].Text()[d.Range.Pos():d.Range.End()], d.Range.Pos()
}

// Error is the first type or syntax error that does not contain one of the given texts.
func (g *Grid) Error(but ...string) string {
next:
	for _, e := range g.errs {
		for _, b := range but {
			if strings.Contains(e, b) {
				continue next
			}
		}
		return e
	}
	return ""
}

// Text is the text of piece k.
func (g *Grid) Text(k int) string { return g.files[k].Text() }

// Fixed is the text of piece k with the given changes.
func (g *Grid) Fixed(k int, fixes []rule.RuleFix) string {
	text, _, _ := linter.ApplyRuleFixes(g.Text(k), []rule.RuleDiagnostic{{FixesPtr: &fixes, SourceFile: g.files[k]}})
	return text
}
