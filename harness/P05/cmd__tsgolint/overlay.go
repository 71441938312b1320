package main

import (
	"errors"
	"io/fs"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

type vRec struct {
	log  []string
	b    bool
	s    string
	e    error
	ents vfs.Entries
	cs   bool
	data string
	t    [2]time.Time
}

func (r *vRec) UseCaseSensitiveFileNames() bool  { return r.cs }
func (r *vRec) FileExists(p string) bool         { r.log = append(r.log, "exists "+p); return r.b }
func (r *vRec) ReadFile(p string) (string, bool) { r.log = append(r.log, "read "+p); return r.s, r.b }
func (r *vRec) WriteFile(p, d string) error {
	r.log = append(r.log, "write "+p)
	r.data = d
	return r.e
}
func (r *vRec) AppendFile(p, d string) error {
	r.log = append(r.log, "append "+p)
	r.data = d
	return r.e
}
func (r *vRec) Remove(p string) error { r.log = append(r.log, "remove "+p); return r.e }
func (r *vRec) Chtimes(p string, a, m time.Time) error {
	r.log = append(r.log, "chtimes "+p)
	r.t = [2]time.Time{a, m}
	return r.e
}
func (r *vRec) DirectoryExists(p string) bool { r.log = append(r.log, "dir "+p); return r.b }
func (r *vRec) GetAccessibleEntries(p string) vfs.Entries {
	r.log = append(r.log, "entries "+p)
	return r.ents
}

type vInfo struct{ fs.FileInfo }

var vTheInfo = &vInfo{}

func (r *vRec) Stat(p string) vfs.FileInfo { r.log = append(r.log, "stat "+p); return vTheInfo }
func (r *vRec) WalkDir(root string, f vfs.WalkDirFunc) error {
	r.log = append(r.log, "walk "+root)
	return r.e
}
func (r *vRec) Realpath(p string) string { r.log = append(r.log, "real "+p); return r.s }

var vErr = errors.New("e")

// Two overridden files and one query with arbitrary paths of up to three bytes
// and arbitrary contents over a base with arbitrary answers: existence and
// content of an overridden file are the override's; every other request is the
// base's answer, asked once with the same path.
//
//vrt:opt must=hit,miss weight=10
func Verif_SourceOverrides() {
	base := &vRec{b: vrt.Bool("base.ok"), s: vrt.Str("base.text", 2), cs: vrt.Bool("base.case")}
	if vrt.Bool("base.fails") {
		base.e = vErr
	}
	a, b := vrt.Str("f1", 3), vrt.Str("f2", 3)
	ca, cb := vrt.Str("c1", 3), vrt.Str("c2", 1)
	m := map[string]string{b: cb}
	m[a] = ca
	o := newOverlayFS(base, m)
	q := vrt.Str("q", 3)
	content, hit := "", false
	if q == b {
		content, hit = cb, true
	}
	if q == a {
		content, hit = ca, true
	}
	ex := o.FileExists(q)
	s, ok := o.ReadFile(q)
	if hit {
		vrt.Reach("hit")
		vrt.Assert(ex, "an overridden file exists")
		vrt.Assert(ok && s == content, "an overridden file reads as the override, byte for byte")
		vrt.Assert(len(base.log) == 0, "the base is not read for an overridden file")
		return
	}
	vrt.Reach("miss")
	vrt.Assert(ex == base.b && s == base.s && ok == base.b, "existence and content of other files are the base's")
	vrt.Assert(len(base.log) == 2 && base.log[0] == "exists "+q && base.log[1] == "read "+q, "the base is asked once, about the same path")
}

// The requests that overrides do not concern, with an arbitrary path of up to
// two bytes that may or may not be overridden.
//
//vrt:opt must=done weight=6
func Verif_OverridesDelegate() {
	base := &vRec{b: vrt.Bool("base.ok"), s: vrt.Str("base.text", 2), cs: vrt.Bool("base.case")}
	if vrt.Bool("base.fails") {
		base.e = vErr
	}
	base.ents.Files = []string{"x"}
	base.ents.Directories = []string{"d"}
	o := newOverlayFS(base, map[string]string{"k": "v"})
	q := vrt.Str("q", 2)
	vrt.Assume(q != "k")
	vrt.Assert(o.UseCaseSensitiveFileNames() == base.cs, "case sensitivity is the base's")
	vrt.Assert(o.DirectoryExists(q) == base.b, "directories are the base's")
	e := o.GetAccessibleEntries(q)
	vrt.Assert(len(e.Files) == 1 && e.Files[0] == "x" && len(e.Directories) == 1 && e.Directories[0] == "d", "listings are the base's")
	vrt.Assert(o.Stat(q) == vfs.FileInfo(vTheInfo), "file information is the base's")
	vrt.Assert(o.Realpath(q) == base.s, "real paths are the base's")
	vrt.Assert(o.WriteFile(q, "w") == base.e && base.data == "w", "writes reach the base")
	vrt.Assert(o.AppendFile(q, "z") == base.e && base.data == "z", "appends reach the base")
	vrt.Assert(o.Remove(q) == base.e, "removals reach the base")
	vrt.Assert(o.WalkDir(q, nil) == base.e, "walks reach the base")
	t1, t2 := time.Unix(1, 0), time.Unix(2, 0)
	vrt.Assert(o.Chtimes(q, t1, t2) == base.e && base.t == [2]time.Time{t1, t2}, "times reach the base in order")
	want := []string{"dir", "entries", "stat", "real", "write", "append", "remove", "walk", "chtimes"}
	vrt.Assert(len(base.log) == len(want), "each request reaches the base once")
	for i, w := range want {
		vrt.Assert(base.log[i] == w+" "+q, "each request reaches the base with its own path")
	}
	vrt.Reach("done")
}
