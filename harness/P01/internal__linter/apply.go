package linter

import (
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type vDiag struct {
	id    int
	fixes []rule.RuleFix
}

func (d *vDiag) Fixes() []rule.RuleFix { return d.fixes }

type vEdit struct {
	pos, end int
	text     string
}

// vSpan is the extent of a diagnostic's edits.
func vSpan(d *vDiag) (int, int) {
	lo, hi := 1<<30, -1
	for _, f := range d.fixes {
		lo, hi = min(lo, f.Range.Pos()), max(hi, f.Range.End())
	}
	return lo, hi
}

// vExplains reports whether out is code with exactly the edits es carried out;
// edits at the same place may come in either order.
func vExplains(code, out string, es []vEdit, at int) bool {
	if len(es) == 0 {
		return out == code[at:]
	}
	p := es[0].pos
	for _, e := range es {
		p = min(p, e.pos)
	}
	if p < at || len(out) < p-at || out[:p-at] != code[at:p] {
		return false
	}
	out = out[p-at:]
	for i, e := range es {
		if e.pos != p || len(out) < len(e.text) || out[:len(e.text)] != e.text {
			continue
		}
		rest := append(append([]vEdit{}, es[:i]...), es[i+1:]...)
		if vExplains(code, out[len(e.text):], rest, e.end) {
			return true
		}
	}
	return false
}

var vNames = []string{"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"}
var vEnds = []string{"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"}
var vTexts = []string{"<A>", "", "<C>", "<DD>", "<E>", "", "<G>", "<H>"}

func vRun(code string, shape []int, texts []string) {
	k := 0
	var ds []*vDiag
	for i, n := range shape {
		d := &vDiag{id: i}
		for j := 0; j < n; j++ {
			p := vrt.Int(vNames[k], 0, len(code))
			e := vrt.Int(vEnds[k], 0, len(code))
			vrt.Assume(p <= e)
			d.fixes = append(d.fixes, rule.RuleFix{Text: texts[k], Range: core.NewTextRange(p, e)})
			k++
		}
		// the edits of one diagnostic do not overlap one another
		for a := range d.fixes {
			for b := range d.fixes[:a] {
				x, y := d.fixes[a].Range, d.fixes[b].Range
				vrt.Assume(vrt.Or(x.End() <= y.Pos(), y.End() <= x.Pos()))
				// nor are they given twice at one place
				vrt.Assume(vrt.Or(x.Pos() != y.Pos(), x.End() != y.End()))
			}
		}
		ds = append(ds, d)
	}
	out, un, fixed := ApplyRuleFixes(code, append([]*vDiag{}, ds...))
	vrt.Observe("out", out)
	vrt.Observe("fixed", fixed)
	skipped := make([]bool, len(ds))
	for _, d := range un {
		vrt.Assert(d != nil && d.id >= 0 && d.id < len(ds) && ds[d.id] == d, "every unapplied diagnostic is one of the given ones")
		vrt.Assert(!skipped[d.id], "a diagnostic is returned as unapplied once")
		skipped[d.id] = true
	}
	var es []vEdit
	applied := 0
	for i, d := range ds {
		if skipped[i] {
			continue
		}
		vrt.Assert(len(d.fixes) > 0, "a diagnostic without fixes stays unapplied")
		applied++
		for _, f := range d.fixes {
			es = append(es, vEdit{f.Range.Pos(), f.Range.End(), f.Text})
		}
	}
	vrt.Assert(fixed == (applied > 0), "fixed tells whether something was applied")
	vrt.Assert(vExplains(code, out, es, 0), "the output is the code with exactly the edits of the applied diagnostics")
	if applied > 1 {
		vrt.Reach("several")
	}
	for i, d := range ds {
		if !skipped[i] || len(d.fixes) == 0 {
			continue
		}
		vrt.Reach("conflict")
		lo, hi := vSpan(d)
		clash := false
		for j, o := range ds {
			if skipped[j] {
				continue
			}
			olo, ohi := vSpan(o)
			if lo < ohi && olo < hi || lo < ohi && olo <= lo {
				clash = true
			}
		}
		vrt.Assert(clash, "a diagnostic is skipped only when its edits run into applied ones")
	}
}

// Three diagnostics with one edit each, every range over a 6-byte text.
//
//vrt:opt must=several,conflict
func Verif_ApplySingles() { vRun("abcdef", []int{1, 1, 1}, []string{"<A>", "", "<C>"}) }

// Two diagnostics with two edits each, every range over a 6-byte text.
//
//vrt:opt must=several,conflict
func Verif_ApplyPairs() { vRun("abcdef", []int{2, 2}, vTexts) }

// A diagnostic without edits between diagnostics with one and two.
//
//vrt:opt must=several,conflict
func Verif_ApplyMixed() { vRun("abcdef", []int{1, 0, 2}, vTexts) }

// Four diagnostics with one edit each.
//
//vrt:opt must=several,conflict tier=thorough weight=20
func Verif_ApplyFour() { vRun("abcdefg", []int{1, 1, 1, 1}, vTexts) }

// Three diagnostics with two edits each.
//
//vrt:opt must=several,conflict tier=thorough weight=40
func Verif_ApplyThreePairs() { vRun("abcdefg", []int{2, 2, 2}, vTexts) }
