package main

import (
	"unicode/utf8"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vLossy is what a text looks like once it has passed through JSON.
func vLossy(s string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] < 0x80 {
			out += s[i : i+1]
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			out += "\ufffd"
		} else {
			out += s[i : i+n]
		}
		i += n
	}
	return out
}

func vRange(name string, free bool) core.TextRange {
	if !free {
		return core.NewTextRange(len(name), 7*len(name))
	}
	hi := 30
	if vrt.Tier() > 0 {
		hi = 120
	}
	p := vrt.Int(name+".pos", 0, hi)
	e := vrt.Int(name+".end", 0, hi)
	vrt.Assume(p <= e)
	return core.NewTextRange(p, e)
}

func vSameRange(w vwRange, r core.TextRange) bool { return w.Pos == r.Pos() && w.End == r.End() }

func vReporting(f func(ctx rule.RuleContext)) rule.Rule {
	return rule.Rule{Name: "r", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		f(ctx)
		return nil
	}}
}

// vOne runs f as the only rule on a.ts and returns the diagnostic message.
func vOne(f func(ctx rule.RuleContext), args []string) (d vwDiag) {
	vWithRules([]rule.Rule{vReporting(f)}, func() {
		out, code := vHeadless(map[string]string{"tsconfig.json": vTsconfig, "a.ts": "let x = 1"}, vPayload("a.ts:r"), args)
		fs, ok := vFrames(out)
		vrt.Assert(code == 0, "linting succeeds")
		vrt.Assert(ok && len(fs) == 1 && fs[0].kind == 1, "one diagnostic message")
		d = vDecode(fs[0].body)
	})
	vrt.Assert(d.Kind == 0 && d.Rule != nil && *d.Rule == "r", "it names the rule")
	vrt.Assert(d.FilePath != nil && *d.FilePath == vRoot+"/a.ts", "it names the file")
	return
}

// A diagnostic one of whose texts (id, description or help) is a head of a
// multi-byte character, or none, followed by any one byte (two thorough).
//
//vrt:opt must=valid,invalid,nohelp weight=20 ckpt=1
func Verif_Message() {
	m := rule.RuleMessage{Id: "an id", Description: "é \"quoted\"\n", Help: ""}
	var t string
	d := vOne(func(ctx rule.RuleContext) {
		vrt.Checkpoint()
		t = []string{"", "\xc3", "\xe2\x82", "\xf0\x9f\x98"}[vrt.Choice("head", 4)] + vrt.Str("text", 1+vrt.Tier())
		switch vrt.Choice("field", 3) {
		case 0:
			m.Id = t
		case 1:
			m.Description = t
		case 2:
			m.Help = t
		}
		ctx.ReportRange(core.NewTextRange(0, 3), m)
	}, nil)
	vrt.Assert(d.Message.Id == vLossy(m.Id), "the id arrives")
	vrt.Assert(d.Message.Description == vLossy(m.Description), "the description arrives")
	vrt.Assert(d.Message.Help == vLossy(m.Help), "the help text arrives")
	vrt.Assert(len(d.Fixes) == 0 && len(d.Suggestions) == 0 && len(d.Labels) == 0, "nothing is added")
	if utf8.ValidString(vrt.ConcStr(t)) {
		vrt.Reach("valid")
	} else {
		vrt.Reach("invalid")
	}
	if m.Help == "" {
		vrt.Reach("nohelp")
	}
}

// One diagnostic with up to two labels; one of the ranges is free (positions up
// to 30, thorough 120), the diagnostic's own range may also be undefined.
//
//vrt:opt must=none,some,undefined weight=10 ckpt=1
func Verif_Ranges() {
	var r core.TextRange
	var undef bool
	var ls []rule.RuleLabeledRange
	d := vOne(func(ctx rule.RuleContext) {
		vrt.Checkpoint()
		undef = vrt.Bool("undefined")
		free := vrt.Choice("free", 3)
		if undef {
			r = core.UndefinedTextRange()
		} else {
			r = vRange("range", free == 0)
		}
		names := []string{"first", "è"}
		for i, n := 0, vrt.Choice("labels", 3); i < n; i++ {
			ls = append(ls, rule.RuleLabeledRange{Label: names[i], Range: vRange(names[i], free == i+1)})
		}
		ctx.ReportDiagnostic(rule.RuleDiagnostic{Range: r, Message: rule.RuleMessage{Id: "i"}, LabeledRanges: ls})
	}, nil)
	if undef {
		vrt.Assert(d.Range == nil, "an undefined range is left out")
		vrt.Reach("undefined")
	} else {
		vrt.Assert(d.Range != nil && vSameRange(*d.Range, r), "the range arrives")
	}
	vrt.Assert(len(d.Labels) == len(ls), "as many labels arrive")
	for i, l := range ls {
		vrt.Assert(d.Labels[i].Label == l.Label && vSameRange(d.Labels[i].Range, l.Range), "each label arrives with its range")
	}
	if len(ls) == 0 {
		vrt.Reach("none")
	} else {
		vrt.Reach("some")
	}
}

func vFixes(name string, max int) (fs []rule.RuleFix) {
	free := vrt.Choice(name+".free", 2*max)
	for i, n := 0, vrt.Choice(name, max+1); i < n; i++ {
		k := name + string(rune('0'+i))
		f := rule.RuleFix{Text: "a" + k, Range: vRange(k[:4-i], free == 2*i)}
		if free == 2*i+1 {
			f.Text = vrt.Str(k+".text", 1)
		}
		fs = append(fs, f)
	}
	return
}

func vSameFixes(w []vwFix, fs []rule.RuleFix) bool {
	if len(w) != len(fs) {
		return false
	}
	for i, f := range fs {
		if w[i].Text != vLossy(f.Text) || !vSameRange(w[i].Range, f.Range) {
			return false
		}
	}
	return true
}

// A diagnostic with up to two fixes, one of which has any text of up to one
// byte, or any range up to 30 (thorough 120), with -fix.
//
//vrt:opt must=none,two weight=15 ckpt=1
func Verif_Fixes() {
	var fs []rule.RuleFix
	d := vOne(func(ctx rule.RuleContext) {
		vrt.Checkpoint()
		fs = vFixes("fix", 2)
		fn := func() []rule.RuleFix { return fs }
		msg := rule.RuleMessage{Id: "i"}
		if vrt.Bool("node") {
			ctx.ReportNodeWithFixes(ctx.SourceFile.AsNode(), msg, fn)
		} else {
			ctx.ReportDiagnosticWithFixes(rule.RuleDiagnostic{Message: msg}, fn)
		}
	}, []string{"-fix"})
	vrt.Assert(len(d.Suggestions) == 0, "no suggestions")
	vrt.Assert(vSameFixes(d.Fixes, fs), "with -fix the fixes arrive as reported")
	switch len(fs) {
	case 0:
		vrt.Reach("none")
	case 2:
		vrt.Reach("two")
	}
}

// A diagnostic with up to two suggestions of up to two fixes each (any one-byte
// texts, fixed ranges), with -fix-suggestions.
//
//vrt:opt must=none,four weight=15 ckpt=1
func Verif_Suggestions() {
	var sg []rule.RuleSuggestion
	d := vOne(func(ctx rule.RuleContext) {
		vrt.Checkpoint()
		sg = vSuggestions()
		vSuggest(ctx, func() []rule.RuleSuggestion { return sg })
	}, []string{"-fix-suggestions"})
	vrt.Assert(len(d.Fixes) == 0, "no fixes")
	vrt.Assert(len(d.Suggestions) == len(sg), "with -fix-suggestions all suggestions arrive")
	n := 0
	for i, s := range sg {
		w := d.Suggestions[i]
		vrt.Assert(w.Message.Id == s.Message.Id && w.Message.Description == s.Message.Description && w.Message.Help == s.Message.Help, "with their messages")
		vrt.Assert(vSameFixes(w.Fixes, s.FixesArr), "and their fixes")
		n += len(w.Fixes)
	}
	switch n {
	case 0:
		vrt.Reach("none")
	case 4:
		vrt.Reach("four")
	}
}

func vSuggestions() (sg []rule.RuleSuggestion) {
	ids := []string{"s1", "s2"}
	for i, n := 0, vrt.Choice("suggestions", 3); i < n; i++ {
		s := rule.RuleSuggestion{Message: rule.RuleMessage{Id: ids[i], Description: "d" + ids[i], Help: []string{"", "h"}[i]}}
		for j, m := 0, vrt.Choice(ids[i], 3); j < m; j++ {
			text := "é"
			if i == j {
				text = vrt.Str(ids[i]+string(rune('a'+j)), 1)
			}
			s.FixesArr = append(s.FixesArr, rule.RuleFix{Text: text, Range: core.NewTextRange(i, i+2*j)})
		}
		sg = append(sg, s)
	}
	return
}

func vSuggest(ctx rule.RuleContext, fn func() []rule.RuleSuggestion) {
	msg := rule.RuleMessage{Id: "i"}
	switch vrt.Choice("how", 3) {
	case 0:
		ctx.ReportNodeWithSuggestions(ctx.SourceFile.AsNode(), msg, fn)
	case 1:
		ctx.ReportDiagnosticWithSuggestions(rule.RuleDiagnostic{Message: msg}, fn)
	case 2:
		ctx.ReportRangeWithSuggestions(core.NewTextRange(0, 1), msg, fn)
	}
}

// A fix and a suggestion, reported in every way, under every combination of
// -fix and -fix-suggestions: what was not asked for is neither sent nor computed.
//
//vrt:opt must=fix,nofix,suggest,nosuggest weight=5
func Verif_Flags() {
	args := [][]string{nil, {"-fix"}, {"-fix-suggestions"}, {"-fix", "-fix-suggestions"}}[vrt.Choice("args", 4)]
	wantFix := len(args) > 0 && args[0] == "-fix"
	wantSug := len(args) > 0 && args[len(args)-1] == "-fix-suggestions"
	fs := []rule.RuleFix{{Text: "t", Range: core.NewTextRange(1, 2)}}
	nf, ns := 0, 0
	sug := vrt.Bool("suggestion")
	d := vOne(func(ctx rule.RuleContext) {
		if sug {
			vSuggest(ctx, func() []rule.RuleSuggestion {
				ns++
				return []rule.RuleSuggestion{{Message: rule.RuleMessage{Id: "s"}, FixesArr: fs}}
			})
			return
		}
		fn := func() []rule.RuleFix { nf++; return fs }
		if vrt.Bool("node") {
			ctx.ReportNodeWithFixes(ctx.SourceFile.AsNode(), rule.RuleMessage{Id: "i"}, fn)
		} else {
			ctx.ReportDiagnosticWithFixes(rule.RuleDiagnostic{Message: rule.RuleMessage{Id: "i"}}, fn)
		}
	}, args)
	if !sug && wantFix {
		vrt.Assert(vSameFixes(d.Fixes, fs), "with -fix the fix is sent")
		vrt.Reach("fix")
	} else {
		vrt.Assert(len(d.Fixes) == 0 && nf == 0, "otherwise no fix is sent or computed")
		vrt.Reach("nofix")
	}
	if sug && wantSug {
		vrt.Assert(len(d.Suggestions) == 1 && d.Suggestions[0].Message.Id == "s" && vSameFixes(d.Suggestions[0].Fixes, fs), "with -fix-suggestions the suggestion is sent")
		vrt.Reach("suggest")
	} else {
		vrt.Assert(len(d.Suggestions) == 0 && ns == 0, "otherwise no suggestion is sent or computed")
		vrt.Reach("nosuggest")
	}
}
