// Package vfix holds fixtures shared by harnesses: an in-memory file system.
package vfix

import (
	"io/fs"
	"sort"
	"strings"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
)

// MemFS is a case-sensitive in-memory vfs.FS.
type MemFS struct {
	Files map[string]string
	Reads []string
}

var _ vfs.FS = (*MemFS)(nil)

func NewMemFS(kv ...string) *MemFS {
	m := &MemFS{Files: map[string]string{}}
	for i := 0; i+1 < len(kv); i += 2 {
		m.Files[kv[i]] = kv[i+1]
	}
	return m
}

func (m *MemFS) UseCaseSensitiveFileNames() bool { return true }
func (m *MemFS) FileExists(p string) bool        { _, ok := m.Files[p]; return ok }
func (m *MemFS) ReadFile(p string) (string, bool) {
	s, ok := m.Files[p]
	return s, ok
}
func (m *MemFS) DirectoryExists(p string) bool {
	if p == "/" {
		return true
	}
	p = strings.TrimSuffix(p, "/") + "/"
	for f := range m.Files {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	return false
}
func (m *MemFS) GetAccessibleEntries(p string) vfs.Entries {
	p = strings.TrimSuffix(p, "/") + "/"
	var e vfs.Entries
	seen := map[string]bool{}
	for f := range m.Files {
		if !strings.HasPrefix(f, p) {
			continue
		}
		r := f[len(p):]
		if i := strings.IndexByte(r, '/'); i >= 0 {
			if !seen[r[:i]] {
				seen[r[:i]] = true
				e.Directories = append(e.Directories, r[:i])
			}
		} else {
			e.Files = append(e.Files, r)
		}
	}
	sort.Strings(e.Files)
	sort.Strings(e.Directories)
	return e
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir
	}
	return 0
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() any           { return nil }

func (m *MemFS) Stat(p string) vfs.FileInfo {
	if s, ok := m.Files[p]; ok {
		return &info{name: p[strings.LastIndexByte(p, '/')+1:], size: int64(len(s))}
	}
	if m.DirectoryExists(p) {
		return &info{name: p[strings.LastIndexByte(p, '/')+1:], dir: true}
	}
	return nil
}
func (m *MemFS) WalkDir(root string, f vfs.WalkDirFunc) error     { return nil }
func (m *MemFS) Realpath(p string) string                         { return p }
func (m *MemFS) WriteFile(p string, data string) error            { m.Files[p] = data; return nil }
func (m *MemFS) AppendFile(p string, data string) error           { m.Files[p] += data; return nil }
func (m *MemFS) Remove(p string) error                            { delete(m.Files, p); return nil }
func (m *MemFS) Chtimes(p string, a time.Time, b time.Time) error { return nil }
