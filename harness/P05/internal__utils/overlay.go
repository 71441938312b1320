package utils

import (
	"errors"
	"io/fs"
	"strings"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vRec is an underlying file system with arbitrary answers that notes each call.
type vRec struct {
	log   []string
	b     bool
	s     string
	e     error
	ents  vfs.Entries
	cs    bool
	t1    time.Time
	t2    time.Time
	data  string
	walks int
}

func (r *vRec) UseCaseSensitiveFileNames() bool { return r.cs }
func (r *vRec) FileExists(p string) bool        { r.log = append(r.log, "exists "+p); return r.b }
func (r *vRec) ReadFile(p string) (string, bool) {
	r.log = append(r.log, "read "+p)
	return r.s, r.b
}
func (r *vRec) WriteFile(p, d string) error {
	r.log = append(r.log, "write "+p)
	r.data = d
	return r.e
}
func (r *vRec) AppendFile(p, d string) error {
	r.log = append(r.log, "append "+p)
	r.data = d
	return r.e
}
func (r *vRec) Remove(p string) error { r.log = append(r.log, "remove "+p); return r.e }
func (r *vRec) Chtimes(p string, a, m time.Time) error {
	r.log = append(r.log, "chtimes "+p)
	r.t1, r.t2 = a, m
	return r.e
}
func (r *vRec) DirectoryExists(p string) bool { r.log = append(r.log, "dir "+p); return r.b }
func (r *vRec) GetAccessibleEntries(p string) vfs.Entries {
	r.log = append(r.log, "entries "+p)
	return r.ents
}

type vInfo struct{ fs.FileInfo }

var vTheInfo = &vInfo{}

func (r *vRec) Stat(p string) vfs.FileInfo { r.log = append(r.log, "stat "+p); return vTheInfo }
func (r *vRec) WalkDir(root string, f vfs.WalkDirFunc) error {
	r.log = append(r.log, "walk "+root)
	r.walks++
	return r.e
}
func (r *vRec) Realpath(p string) string { r.log = append(r.log, "real "+p); return r.s }

var vErr = errors.New("e")

func vBase() *vRec {
	r := &vRec{b: vrt.Bool("base.ok"), s: vrt.Str("base.text", 2), cs: vrt.Bool("base.case")}
	if vrt.Bool("base.fails") {
		r.e = vErr
	}
	return r
}

func vPath(name string, seg []string, max int) string {
	s := ""
	n := 1 + vrt.Choice(name+".n", max)
	for i := 0; i < n; i++ {
		s += "/" + seg[vrt.Choice(name, len(seg))]
	}
	return s
}

// Up to two virtual files with arbitrary 2-byte tails and contents, and one
// query with an arbitrary path of the same kind: reads, existence, size and
// real path are the virtual file's own, everything else is the base's answer.
//
//vrt:opt must=hit,miss weight=10
func Verif_VirtualFileQueries() {
	base := vBase()
	v := map[string]string{}
	a, b := "/"+vrt.Str("f1", 2), "/"+vrt.Str("f2", 2)
	ca, cb := vrt.Str("c1", 3), vrt.Str("c2", 1)
	v[b] = cb
	v[a] = ca
	o := NewOverlayVFS(base, v)
	q := "/" + vrt.Str("q", 2)
	content, hit := "", false
	if q == b {
		content, hit = cb, true
	}
	if q == a {
		content, hit = ca, true
	}
	vrt.Assert(o.UseCaseSensitiveFileNames() == base.cs, "case sensitivity is the base's")
	if hit {
		vrt.Reach("hit")
		vrt.Assert(o.FileExists(q), "a virtual file exists")
		s, ok := o.ReadFile(q)
		vrt.Assert(ok && s == content, "a virtual file reads as its content, byte for byte")
		st := o.Stat(q)
		vrt.Assert(st != nil && st.Size() == int64(len(content)) && !st.IsDir(), "a virtual file is a file of its content's length")
		vrt.Assert(o.Realpath(q) == q, "a virtual file is its own real path")
		vrt.Assert(len(base.log) == 0, "the base is not asked about a virtual file")
		return
	}
	vrt.Reach("miss")
	vrt.Assert(o.FileExists(q) == base.b, "existence of other files is the base's")
	s, ok := o.ReadFile(q)
	vrt.Assert(s == base.s && ok == base.b, "content of other files is the base's")
	vrt.Assert(o.Stat(q) == vfs.FileInfo(vTheInfo), "information on other files is the base's")
	vrt.Assert(o.Realpath(q) == base.s, "real path of other files is the base's")
	vrt.Assert(o.WriteFile(q, "x") == base.e && o.AppendFile(q, "y") == base.e && o.Remove(q) == base.e, "writes to other files are the base's")
	want := "exists,read,stat,real,write,append,remove"
	got := ""
	for i, l := range base.log {
		op, p, _ := strings.Cut(l, " ")
		vrt.Assert(p == q, "the base is asked about the same path")
		if i > 0 {
			got += ","
		}
		got += op
	}
	vrt.Assert(got == want, "each request reaches the base once")
}

// Directory queries over two virtual files with paths of up to three segments
// from {a, ab, b} and base listings holding some of those names: a directory
// exists when it is the base's or lies on the way to a virtual file, and the
// names listed are the base's plus the virtual children, as files or
// directories, with nothing else and nothing lost.
//
//vrt:opt must=virtualdir,basedir,child weight=14
func Verif_VirtualDirectories() {
	seg := []string{"a", "ab", "b"}
	base := vBase()
	if vrt.Bool("base.hasfile") {
		base.ents.Files = append(base.ents.Files, "x.ts")
	}
	if vrt.Bool("base.hasdir") {
		base.ents.Directories = append(base.ents.Directories, "a")
	}
	f1 := vPath("f1", seg, 3)
	f2 := vPath("f2", seg, 2)
	o := NewOverlayVFS(base, map[string]string{f1: "1", f2: "2"})
	q := vPath("q", seg, 2)
	if vrt.Bool("q.root") {
		q = "/"
	}
	dir := q
	if vrt.Bool("q.slash") && q != "/" {
		q += "/"
	}
	if dir != "/" {
		dir += "/"
	}
	wf, wd := map[string]bool{}, map[string]bool{}
	for _, n := range base.ents.Files {
		wf[n] = true
	}
	for _, n := range base.ents.Directories {
		wd[n] = true
	}
	isDir := false
	for _, f := range []string{f1, f2} {
		if len(f) > len(dir) && f[:len(dir)] == dir {
			isDir = true
			rest := f[len(dir):]
			if i := strings.IndexByte(rest, '/'); i >= 0 {
				wd[rest[:i]] = true
			} else {
				wf[rest] = true
			}
		}
	}
	got := o.DirectoryExists(q)
	vrt.Assert(got == (isDir || base.b), "a directory exists iff the base has it or a virtual file lies below it")
	if isDir {
		vrt.Reach("virtualdir")
	} else if base.b {
		vrt.Reach("basedir")
	}
	e := o.GetAccessibleEntries(q)
	gf, gd := map[string]bool{}, map[string]bool{}
	for _, n := range e.Files {
		gf[n] = true
	}
	for _, n := range e.Directories {
		gd[n] = true
	}
	if isDir {
		vrt.Reach("child")
	}
	vrt.Assert(vSame(gf, wf), "the files listed are the base's plus the virtual ones")
	vrt.Assert(vSame(gd, wd), "the directories listed are the base's plus the virtual ones")
	vrt.Assert(base.log[len(base.log)-1] == "entries "+q, "the base is asked about the same directory")
}

func vSame(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// Two overlays with different virtual files of one directory over one
// underlying file system, which answers with the same listing each time, with
// room to grow or without: neither answer disturbs the other one or the
// underlying listing, also when both are asked at the same time.
//
//vrt:opt must=parallel,sequential weight=4 pre=2 native=off
func Verif_SharedListing() {
	spare := vrt.Choice("spare", 3)
	files := append(make([]string, 0, 1+spare), "x.ts")
	dirs := append(make([]string, 0, 1+spare), "d")
	base := &vStill{ents: vfs.Entries{Files: files, Directories: dirs}}
	sub := []string{"", "s/"}[vrt.Choice("sub", 2)]
	o1 := NewOverlayVFS(base, map[string]string{"/r/" + sub + "a.ts": ""})
	o2 := NewOverlayVFS(base, map[string]string{"/r/" + sub + "b.ts": "", "/r/t/c.ts": ""})
	var e1, e2 vfs.Entries
	if vrt.Bool("parallel") {
		vrt.Race(true)
		vrt.Concurrent(2)
		done := make(chan bool)
		go func() { e1 = o1.GetAccessibleEntries("/r"); done <- true }()
		go func() { e2 = o2.GetAccessibleEntries("/r"); done <- true }()
		<-done
		<-done
		vrt.Concurrent(0)
		vrt.Reach("parallel")
	} else {
		e1 = o1.GetAccessibleEntries("/r")
		e2 = o2.GetAccessibleEntries("/r")
		vrt.Reach("sequential")
	}
	want := func(e vfs.Entries, f, d string) {
		vrt.Assert(strings.Join(e.Files, ",") == "x.ts"+f, "the files are those of the directory and the virtual ones of this overlay")
		vrt.Assert(strings.Join(e.Directories, ",") == "d"+d, "the directories are those of the directory and the implied ones of this overlay")
	}
	if sub == "" {
		want(e1, ",a.ts", "")
		want(e2, ",b.ts", ",t")
	} else {
		want(e1, "", ",s")
		vrt.Assert(len(e2.Files) == 1 && e2.Files[0] == "x.ts", "the files are those of the directory")
		vrt.Assert(len(e2.Directories) == 3 && e2.Directories[0] == "d" && vrt.Or(vrt.And(e2.Directories[1] == "s", e2.Directories[2] == "t"), vrt.And(e2.Directories[1] == "t", e2.Directories[2] == "s")), "the directories are those of the directory and the implied ones")
	}
	vrt.Assert(len(base.ents.Files) == 1 && base.ents.Files[0] == "x.ts" && len(base.ents.Directories) == 1 && base.ents.Directories[0] == "d", "the underlying listing is unchanged")
}

// vStill is an underlying file system that only answers listings, always the same.
type vStill struct {
	vRec
	ents vfs.Entries
}

func (s *vStill) GetAccessibleEntries(string) vfs.Entries { return s.ents }
