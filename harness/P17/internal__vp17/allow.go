// Package vp17 checks what the lists of allowed types and values match.
package vp17

import (
	"strconv"
	"strings"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/checker"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type part struct {
	name  string   // the name of the type
	files []string // where it is declared, none: part of the language
	pkg   string   // names of packages it is declared in
}

// A type, and what its name and place are: those of all parts of an intersection
// or of its alias.
type allowed struct {
	text  string
	parts []part
}

const lib = "lib"

var a1 = []string{"/p/a.ts"}

var types = []allowed{
	{"Foo", []part{{"Foo", a1, ""}}},
	{"Bar", []part{{"Bar", []string{"/p/sub/b.ts"}, ""}}},
	{"C.Foo", []part{{"Foo", []string{"/pq/c.ts"}, ""}}},
	{"P.Foo", []part{{"Foo", []string{"/p/node_modules/pkg/index.d.ts"}, "pkg"}}},
	{"S.Foo", []part{{"Foo", []string{"/p/node_modules/@s/pkg/index.d.ts"}, "@s/pkg"}}},
	{"D.Foo", []part{{"Foo", []string{"/p/node_modules/@types/dep/index.d.ts"}, "dep @types/dep"}}},
	{"E.Foo", []part{{"Foo", []string{"/p/node_modules/@types/s__d/index.d.ts"}, "@s/d s__d @types/s__d"}}},
	{"A.Foo", []part{{"Foo", []string{"/p/node_modules/al/lib/x.d.ts"}, "real"}}},
	{"M.Foo", []part{{"Foo", []string{"/p/h.d.ts"}, "mod"}}},
	{"M.N.Bar", []part{{"Bar", []string{"/p/h.d.ts"}, "mod"}}},
	{"Glob.Bar", []part{{"Bar", []string{"/p/h.d.ts"}, ""}}},
	{"Promise<string>", []part{{"Promise", []string{lib}, ""}}},
	{"Date", []part{{"Date", []string{lib, "/p/h.d.ts"}, ""}}},
	{"string", []part{{"string", nil, ""}}},
	{"any", []part{{"any", nil, ""}}},
	{"unknown", []part{{"unknown", nil, ""}}},
	{"'Foo'", nil},
	{"Al", []part{{"Al", a1, ""}}},
	{"Un", []part{{"Un", a1, ""}}},
	{"In", []part{{"In", a1, ""}, {"Foo", a1, ""}, {"Bar", []string{"/p/sub/b.ts"}, ""}}},
	{"Foo & C.Foo", []part{{"Foo", a1, ""}, {"Foo", []string{"/pq/c.ts"}, ""}}},
	{"Foo | C.Foo", nil},
	{"Same", []part{{"Foo", []string{"/pq/c.ts"}, ""}}},
	{"Br", []part{{"Br", a1, ""}, {"string", nil, ""}}},
	{"Gen<string>", []part{{"Gen", a1, ""}}},
	{"En", []part{{"En", a1, ""}}},
	{"typeof fn", []part{{"fn", a1, ""}}},
	{"Foo[]", []part{{"Array", []string{lib}, ""}}},
	{"I.Foo", []part{{"Foo", []string{"/p/node_modules/in/lib/x.d.ts"}, "inner"}}},
	{"J.Foo", []part{{"Foo", []string{"/p/node_modules/@s/bad/index.d.ts"}, "@s/bad"}}},
	{"L.Foo", []part{{"Foo", []string{"/p/node_modules/pkg/node_modules/deep/index.d.ts"}, "deep"}}},
	{"Missing", nil},
}

func source() (*compiler.Program, map[string]*checker.Type, map[string]*ast.Node, string) {
	text := `import {Bar} from './sub/b'; import * as C from '../pq/c'; import * as P from 'pkg'; import * as S from '@s/pkg'; import * as D from 'dep'; import * as E from '@s/d'; import * as A from 'al'; import * as M from 'mod'; import * as I from 'in'; import * as J from '@s/bad'; import {L} from 'pkg';
export interface Foo {foo: 1} type Al = {al: 1}; type Un = Foo | C.Foo; type In = Foo & Bar; type Same = C.Foo; type Br = string & {br: 1}; class Gen<T> {g: T} enum En {A, B} declare function fn(): void;
`
	for i, t := range types {
		text += "declare const v" + strconv.Itoa(i) + ": " + t.text + ";\n"
	}
	text += "val; P.val; M.val; C.val; D.val; A.val; Promise; o['val']; o.#val; o[0]; o['x' + 'y'];\n"
	foo := "export interface Foo {x: 1}; export declare class val {}"
	p, fl := vlint.Program(vlint.Config{
		Files: []string{"a.ts", text, "sub/b.ts", "export class Bar {b: 1}", "h.d.ts", "declare module 'mod' { interface Foo {m: 1} namespace N { interface Bar {n: 1} } class val {} } declare namespace Glob { interface Bar {g: 1} } interface Date {more: 1} declare class val {} declare const o: any;"},
		Others: []string{"../pq/c.ts", "export interface Foo {c: 1}; export class val {}", "node_modules/pkg/index.d.ts", foo + " import * as L from 'deep'; export {L};", "node_modules/pkg/node_modules/deep/index.d.ts", foo,
			"node_modules/in/package.json", `{"name":"inner","types":"lib/x.d.ts"}`, "node_modules/in/lib/package.json", `{"type":"module"}`, "node_modules/in/lib/x.d.ts", foo,
			"node_modules/@s/bad/package.json", `{"name":`, "node_modules/@s/bad/index.d.ts", foo,
			"node_modules/@s/pkg/index.d.ts", foo,
			"node_modules/@types/dep/index.d.ts", foo, "node_modules/@types/s__d/index.d.ts", foo,
			"node_modules/al/package.json", `{"name":"real","types":"lib/x.d.ts"}`, "node_modules/al/lib/x.d.ts", foo, "node_modules/pkg/package.json", `{"name":"pkg","types":"index.d.ts"}`},
	})
	ts, ns := map[string]*checker.Type{}, map[string]*ast.Node{}
	var errs string
	err := linter.RunLinterOnProgram(linter.RunLinterOnProgramOptions{
		Program: p, Files: fl[:1], Workers: 1, OnDiagnostic: func(d rule.RuleDiagnostic) {},
		GetRulesForFile: func(f *ast.SourceFile) []linter.ConfiguredRule {
			return []linter.ConfiguredRule{{Name: "probe", Run: func(ctx rule.RuleContext) rule.RuleListeners {
				return rule.RuleListeners{
					ast.KindVariableDeclaration: func(n *ast.Node) {
						ts[n.Name().Text()] = ctx.TypeChecker.GetTypeAtLocation(n.Name())
					},
					ast.KindExpressionStatement: func(n *ast.Node) {
						e := n.Expression()
						text := strings.TrimSpace(f.Text()[e.Pos():e.End()])
						ns[text] = e
						if ast.IsPropertyAccessExpression(e) {
							ns[text] = e.Name()
						} else if ast.IsElementAccessExpression(e) {
							ns[text] = e.AsElementAccessExpression().ArgumentExpression
						}
						ts[text] = ctx.TypeChecker.GetTypeAtLocation(e)
					},
				}
			}}}
		},
	})
	if err != nil {
		errs = err.Error()
	}
	return p, ts, ns, errs
}

// sourceOk tells whether a part is from where the specifier says. A package has
// a name, its declarations may be in @types, where a scope becomes a prefix.
func (p part) sourceOk(s *utils.TypeOrValueSpecifier) bool {
	switch s.From {
	case utils.TypeOrValueSpecifierFromName:
		return true
	case utils.TypeOrValueSpecifierFromLib:
		if len(p.files) == 0 {
			return true
		}
		for _, f := range p.files {
			if f == lib {
				return true
			}
		}
		return false
	case utils.TypeOrValueSpecifierFromPackage:
		ok := false
		for _, n := range strings.Fields(p.pkg) {
			ok = vrt.Or(ok, s.Package == n)
		}
		return ok
	}
	for _, f := range p.files {
		if s.Path == "" && strings.HasPrefix(f, "/p/") || s.Path != "" && resolve(s.Path) == f {
			return true
		}
	}
	return false
}

func resolve(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/p/" + p
	}
	var out []string
	for _, x := range strings.Split(p, "/") {
		switch x {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, x)
		}
	}
	return "/" + strings.Join(out, "/")
}

func text(key string, n int, but string) string {
	s := vrt.Str(key, n)
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] > ' ' && s[i] < 0x7f)
		for j := 0; j < len(but); j++ {
			vrt.Assume(s[i] != but[j])
		}
	}
	return s
}

func specifier() utils.TypeOrValueSpecifier {
	s := utils.TypeOrValueSpecifier{From: utils.TypeOrValueSpecifierFrom(vrt.Choice("from", 4))}
	name := text("name", 7, "")
	switch {
	case s.From == utils.TypeOrValueSpecifierFromName:
		s.Name = []string{name}
	default:
		s.Name = []string{"zzz", name}
	}
	return s
}

// A specifier of any name of up to seven characters, of every source: no path, one of
// eleven spellings or any of up to four characters; any package of up to ten characters.
// Thirty-two types from files in and outside the project, packages with and without scope,
// in @types, of another name than their directory, from ambient modules, the library, and the language.
//
//vrt:opt must=matches,differs,file,lib,package,name ckpt=1
func Verif_Types() {
	prog, ts, _, errs := source()
	vrt.Assert(errs == "", "no error: "+errs)
	vrt.Checkpoint()
	s := specifier()
	place(&s)
	i := vrt.Choice("type", len(types))
	got := utils.TypeMatchesSomeSpecifier(ts["v"+strconv.Itoa(i)], []utils.TypeOrValueSpecifier{s}, prog)
	want := false
	for _, p := range types[i].parts {
		named := s.Name[len(s.Name)-1] == p.name
		if named {
			want = vrt.Or(want, p.sourceOk(&s))
		}
	}
	vrt.Assert(got == want, "a type is matched exactly when it has the name and is from there")
	if got {
		vrt.Reach("matches")
		vrt.Reach([]string{"file", "lib", "package", "name"}[s.From])
	} else {
		vrt.Reach("differs")
	}
}

// The same specifiers, and the symbols of those types that are one declared thing, under any name of up to three characters.
//
//vrt:opt must=matches,differs ckpt=1
func Verif_Symbols() {
	prog, ts, _, errs := source()
	vrt.Assert(errs == "", "no error: "+errs)
	vrt.Checkpoint()
	i := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}[vrt.Choice("type", 13)]
	s := specifier()
	place(&s)
	name := text("symbol", 3, "")
	vrt.Assume(name != "zzz")
	got := utils.SymbolMatchesSpecifierNameAndSource(checker.Type_symbol(ts["v"+strconv.Itoa(i)]), name, s, prog)
	want := false
	if s.Name[len(s.Name)-1] == name {
		want = types[i].parts[0].sourceOk(&s)
	}
	vrt.Assert(got == want, "a symbol is matched exactly when it is given the name and is from there")
	vrt.Assert(!utils.SymbolMatchesSpecifierNameAndSource(nil, name, s, prog), "nothing is not matched")
	if got {
		vrt.Reach("matches")
	} else {
		vrt.Reach("differs")
	}
}

func place(s *utils.TypeOrValueSpecifier) {
	switch s.From {
	case utils.TypeOrValueSpecifierFromFile:
		paths := []string{"", "a.ts", "./a.ts", "/p/a.ts", "sub/b.ts", "sub/../a.ts", "b.ts", "../pq/c.ts", "A.ts", "a", "h.d.ts", "node_modules/pkg/index.d.ts"}
		if k := vrt.Choice("path", len(paths)+1); k < len(paths) {
			s.Path = paths[k]
		} else {
			s.Path = text("file", 4, "\\:%")
			vrt.Assume(len(s.Path) > 0)
		}
	case utils.TypeOrValueSpecifierFromPackage:
		s.Package = text("package", 10, "")
	}
}

// The same specifiers, and values given by an identifier, a member, a private member or an element of
// something: they are matched by their name, and, for packages, by where they are declared.
//
//vrt:opt must=matches,differs ckpt=1
func Verif_Values() {
	prog, ts, ns, errs := source()
	vrt.Assert(errs == "", "no error: "+errs)
	vrt.Checkpoint()
	s := specifier()
	if s.From == utils.TypeOrValueSpecifierFromPackage {
		s.Package = text("package", 10, "")
	}
	values := [][3]string{{"val", "val", ""}, {"P.val", "val", "pkg"}, {"M.val", "val", "mod"}, {"C.val", "val", ""}, {"D.val", "val", "dep @types/dep"}, {"A.val", "val", "real"}, {"Promise", "Promise", ""}, {"o['val']", "val", ""}, {"o.#val", "val", ""}, {"o[0]", "", ""}, {"o['x' + 'y']", "", ""}}
	v := values[vrt.Choice("value", len(values))]
	vrt.Assert(ns[v[0]] != nil, v[0]+" is there")
	got := utils.ValueMatchesSomeSpecifier(ns[v[0]], []utils.TypeOrValueSpecifier{s}, prog, ts[v[0]])
	want := vrt.And(v[1] != "", s.Name[len(s.Name)-1] == v[1])
	if s.From == utils.TypeOrValueSpecifierFromPackage {
		want = vrt.And(want, part{pkg: v[2]}.sourceOk(&s))
	}
	vrt.Assert(got == want, "a value is matched exactly when it has the name and is of the package")
	if got {
		vrt.Reach("matches")
	} else {
		vrt.Reach("differs")
	}
}

// Lists of up to three specifiers: they match what any of them matches.
//
//vrt:opt must=matches,differs ckpt=1
func Verif_Lists() {
	prog, ts, _, errs := source()
	vrt.Assert(errs == "", "no error: "+errs)
	vrt.Checkpoint()
	names := []string{"Foo", "Bar", "In", "Promise"}
	var list []utils.TypeOrValueSpecifier
	for i := vrt.Choice("length", 4); i > 0; i-- {
		s := utils.TypeOrValueSpecifier{From: utils.TypeOrValueSpecifierFrom(vrt.Choice("from", 4)), Package: "mod"}
		s.Name = []string{names[vrt.Choice("name", len(names))]}
		if s.From != utils.TypeOrValueSpecifierFromName && vrt.Choice("two", 2) == 1 {
			s.Name = append(s.Name, "Foo")
		}
		list = append(list, s)
	}
	i := []int{0, 2, 8, 10, 11, 19}[vrt.Choice("type", 6)]
	got := utils.TypeMatchesSomeSpecifier(ts["v"+strconv.Itoa(i)], list, prog)
	want := false
	for _, s := range list {
		for _, p := range types[i].parts {
			for _, n := range s.Name {
				want = want || n == p.name && p.sourceOk(&s)
			}
		}
	}
	vrt.Assert(got == want, "a list matches what any of its specifiers matches")
	if got {
		vrt.Reach("matches")
	} else {
		vrt.Reach("differs")
	}
}
