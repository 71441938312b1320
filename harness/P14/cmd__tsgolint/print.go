package main

import (
	"bufio"
	"bytes"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

func vSource(name, text string) *ast.SourceFile {
	f := ast.NewNodeFactory(ast.NodeFactoryHooks{})
	eof := f.NewToken(ast.KindEndOfFile)
	return f.NewSourceFile(ast.SourceFileParseOptions{FileName: name, Path: tspath.Path(name)}, text, f.NewNodeList(nil), eof).AsSourceFile()
}

// vVisible is what a terminal shows: the text without escape sequences, and
// which bytes of it are underlined.
func vVisible(out string) (text string, under []bool) {
	on := false
	var sb []byte
	for i := 0; i < len(out); i++ {
		if out[i] != 0x1b {
			sb = append(sb, out[i])
			under = append(under, on)
			continue
		}
		vrt.Assert(i+1 < len(out) && out[i+1] == '[', "an escape sequence is a style")
		j := i + 2
		for j < len(out) && out[j] != 'm' {
			j++
		}
		vrt.Assert(j < len(out), "an escape sequence is complete")
		for _, c := range strings.Split(out[i+2:j], ";") {
			switch {
			case c == "4" || c == "4:3":
				on = true
			case c == "0":
				on = false
			}
		}
		i = j
	}
	vrt.Assert(!on, "the style is reset at the end")
	return string(sb), under
}

type vLine struct{ start, end, next int } // text without and with the line break

func vLines(t string) (ls []vLine) {
	s := 0
	for i := 0; i < len(t); {
		n := 0
		switch {
		case t[i] == '\r' && i+1 < len(t) && t[i+1] == '\n':
			n = 2
		case t[i] == '\r' || t[i] == '\n':
			n = 1
		case strings.HasPrefix(t[i:], "\u2028") || strings.HasPrefix(t[i:], "\u2029"):
			n = 3
		}
		if n > 0 {
			ls = append(ls, vLine{s, i, i + n})
			i += n
			s = i
		} else {
			i++
		}
	}
	return append(ls, vLine{s, len(t), len(t)})
}

func vUTF16(s string) (n int) {
	for _, c := range s {
		n++
		if c > 0xffff {
			n++
		}
	}
	return
}

func vBlank(b byte) bool { return b == ' ' || b == '\t' || b == '\r' || b == '\n' }

// vPrint checks the printed form of a diagnostic of rule r at from..to.
func vPrint(name, text, r, msg string, from, to int) {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	printDiagnostic(rule.RuleDiagnostic{SourceFile: vSource("/p/"+name, text), RuleName: r, Message: rule.RuleMessage{Description: msg}, Range: core.NewTextRange(from, to)}, w, tspath.ComparePathsOptions{CurrentDirectory: "/p", UseCaseSensitiveFileNames: true})
	w.Flush()
	shown, under := vVisible(buf.String())

	ls := vLines(text)
	at := func(pos int) int {
		for i := range ls {
			if pos < ls[i].next || i == len(ls)-1 {
				return i
			}
		}
		return 0
	}
	l1, l2 := at(from), at(to)
	head := "  " + r + "  — " + strings.ReplaceAll(msg, "\n", "\n    │"+strings.Repeat(" ", len(r)+1)) +
		"\n  ╭─┴──────────( " + name + ":" + strconv.Itoa(l1+1) + ":" + strconv.Itoa(vUTF16(text[ls[l1].start:from])+1) + " )─────\n"
	vrt.Assert(strings.HasPrefix(shown, head), "the rule, the message and the place come first")
	for i := range head {
		vrt.Assert(!under[i], "only source text is underlined")
	}
	pos := len(head)
	b1, b2 := max(l1-1, 0), min(l2+1, len(ls)-1)
	const tail = "  ╰────────────────────────────────\n\n"
	if b2-b1 > 12 {
		vrt.Assert(shown[pos:] == "  │  Error range is too big. Skipping code block printing.\n"+tail, "a range that is too big is not shown")
		vrt.Reach("big")
		return
	}
	indent := -1
	for i := b1; i <= b2; i++ {
		for k := ls[i].start; k < ls[i].end; k++ {
			if !vBlank(text[k]) {
				if indent < 0 || k-ls[i].start < indent {
					indent = k - ls[i].start
				}
				break
			}
		}
	}
	width := len(strconv.Itoa(b2 + 1))
	for i := b1; i <= b2; i++ {
		no := strconv.Itoa(i + 1)
		gut := "  │ " + strings.Repeat(" ", width-len(no)) + no + " │  "
		vrt.Assert(strings.HasPrefix(shown[pos:], gut), "each line of the block has its number")
		pos += len(gut)
		end := ls[i].end
		for end > ls[i].start && vBlank(text[end-1]) {
			end--
		}
		if end > ls[i].start {
			code := text[ls[i].start+indent : end]
			vrt.Assert(strings.HasPrefix(shown[pos:], code+"\n"), "each line of the block is shown without its common indentation")
			for k := range code {
				p := ls[i].start + indent + k
				in := p >= from && p < to
				if in && !vBlank(text[p]) {
					vrt.Assert(under[pos+k], "the range is underlined")
					vrt.Reach("underlined")
				}
				if !in {
					vrt.Assert(!under[pos+k], "nothing else is underlined")
				}
			}
			pos += len(code)
		}
		vrt.Assert(strings.HasPrefix(shown[pos:], "\n"), "the line ends")
		pos++
	}
	vrt.Assert(shown[pos:] == tail, "the block ends")
	vrt.Reach("shown")
}

// Any text of up to three symbolic bytes (four thorough) out of a, blank, tab,
// newline and carriage return, with a two-byte character, a line separator or an
// astral character at any place or not, and every range of whole characters in it.
//
//vrt:opt must=shown,underlined weight=40
func Verif_PrintText() {
	text := vrt.Str("text", 3+vrt.Tier())
	for i := 0; i < len(text); i++ {
		c := text[i]
		vrt.Assume(vrt.Or(vrt.Or(c == 'a', vrt.Or(c == ' ', c == '\t')), vrt.Or(c == '\n', c == '\r')))
	}
	if k := vrt.Choice("extra", 4); k > 0 {
		at := vrt.Choice("at", len(text)+1)
		text = text[:at] + []string{"é", "\u2028", "\U0001f600"}[k-1] + text[at:]
	}
	from := vrt.Choice("from", len(text)+1)
	to := from + vrt.Choice("length", len(text)-from+1)
	for _, p := range []int{from, to} {
		vrt.Assume(p == len(text) || utf8.RuneStart(text[p]))
	}
	vPrint("a.ts", text, "r", "m", from, to)
}

// A range over one to thirteen of fifteen lines, starting at any of them, with three
// indentations, rule names and messages of several lines.
//
//vrt:opt must=shown,big weight=20
func Verif_PrintLines() {
	text := ""
	var starts []int
	shift := vrt.Choice("shift", 5)
	for i := 0; i < 15; i++ {
		starts = append(starts, len(text))
		text += []string{"  f(x)\n", "\t\tg(y)  \r\n", "\n", "      h\n", " \n"}[(i*7+shift)%5]
	}
	starts = append(starts, len(text))
	a := vrt.Choice("first", 15)
	b := a + vrt.Choice("lines", 16-a)
	from, to := starts[a], starts[b]
	if vrt.Bool("inner") {
		from, to = min(from+2, len(text)), min(to+3, len(text))
	}
	msg := []string{"m", "m\nn\n", ""}[vrt.Choice("message", 3)]
	vPrint([]string{"a.ts", "s/b.ts"}[vrt.Choice("file", 2)], text, []string{"r", "await-thenable"}[vrt.Choice("rule", 2)], msg, from, to)
}
