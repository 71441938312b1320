// Package zzmem is an in-memory file system for the demonstrations.
package zzmem

import (
	"io/fs"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
)

// Mem is an in-memory file system.
type Mem struct {
	mu    sync.Mutex
	Files map[string]string
}

var _ vfs.FS = (*Mem)(nil)

func NewMem(kv ...string) *Mem {
	m := &Mem{Files: map[string]string{}}
	for i := 0; i+1 < len(kv); i += 2 {
		m.Files[kv[i]] = kv[i+1]
	}
	return m
}
func (m *Mem) UseCaseSensitiveFileNames() bool { return true }
func (m *Mem) FileExists(p string) bool        { _, ok := m.ReadFile(p); return ok }
func (m *Mem) ReadFile(p string) (string, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	s, ok := m.Files[p]
	return s, ok
}
func (m *Mem) DirectoryExists(p string) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	p = strings.TrimSuffix(p, "/") + "/"
	for f := range m.Files {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	return false
}
func (m *Mem) GetAccessibleEntries(p string) (e vfs.Entries) {
	m.mu.Lock()
	defer m.mu.Unlock()
	p = strings.TrimSuffix(p, "/") + "/"
	seen := map[string]bool{}
	for f := range m.Files {
		if strings.HasPrefix(f, p) {
			r := f[len(p):]
			if i := strings.IndexByte(r, '/'); i >= 0 {
				if !seen[r[:i]] {
					seen[r[:i]] = true
					e.Directories = append(e.Directories, r[:i])
				}
			} else {
				e.Files = append(e.Files, r)
			}
		}
	}
	sort.Strings(e.Files)
	sort.Strings(e.Directories)
	return
}
func (m *Mem) WriteFile(p string, d string) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.Files[p] = d
	return nil
}
func (m *Mem) AppendFile(p string, d string) error             { return m.WriteFile(p, d) }
func (m *Mem) Remove(p string) error                           { panic("Remove") }
func (m *Mem) Chtimes(p string, a time.Time, b time.Time) error { return nil }
func (m *Mem) Stat(p string) vfs.FileInfo                      { return nil }
func (m *Mem) WalkDir(root string, f vfs.WalkDirFunc) error    { return fs.ErrNotExist }
func (m *Mem) Realpath(p string) string                        { return p }

