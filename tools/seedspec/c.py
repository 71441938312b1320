SEEDS = []
def seed(**k): SEEDS.append(k)
HOST = '''
package utils

import (
	"sync"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/typescript-eslint/tsgolint/internal/zzmem"
)

func open(name, path, text string, force bool) *ast.SourceFile {
	h := NewCompilerHost("/", &zzmem.Mem{Files: map[string]string{name: text}}, "/lib", nil, nil)
	return h.GetSourceFile(ast.SourceFileParseOptions{FileName: name, Path: tspath.Path(path), ExternalModuleIndicatorOptions: ast.ExternalModuleIndicatorOptions{Force: force}})
}

var _ sync.WaitGroup
'''
seed(id="P10-name", property="P10", needs="two spellings of the name of one file (as on a case-insensitive disk) in two programs",
 breaks="the cache is keyed by the canonical path only, so the second program gets a source file under the name the first one used",
 edits=[("internal/utils/host.go", "	key := GetSourceFileCacheKey(opts, text, scriptKind)\n", "	keyOpts := opts\n	keyOpts.FileName = \"\"\n	key := GetSourceFileCacheKey(keyOpts, text, scriptKind)\n")],
 pkg="internal/utils", test=HOST + '''
func TestSeedDemo(t *testing.T) {
	a, b := open("/A.ts", "/a.ts", "let x;", false), open("/a.ts", "/a.ts", "let x;", false)
	if a.FileName() != "/A.ts" || b.FileName() != "/a.ts" {
		t.Fatal(a.FileName(), b.FileName())
	}
}
''')
seed(id="P10-force", property="P10", needs="one script file in two projects, one of which forces module detection",
 breaks="module options are not part of the cache key, so the second project gets the file as the first one saw it",
 edits=[("internal/utils/host.go", "	key := GetSourceFileCacheKey(opts, text, scriptKind)\n", "	key := GetSourceFileCacheKey(ast.SourceFileParseOptions{FileName: opts.FileName, Path: opts.Path}, text, scriptKind)\n")],
 pkg="internal/utils", test=HOST + '''
func TestSeedDemo(t *testing.T) {
	a, b := open("/a.ts", "/a.ts", "let x;", false), open("/a.ts", "/a.ts", "let x;", true)
	if a.ExternalModuleIndicator != nil || b.ExternalModuleIndicator == nil {
		t.Fatal("module options mixed up")
	}
}
''')
seed(id="P10-store", property="P10", needs="two goroutines that ask for one new file at the same time",
 breaks="both parse it and each stores and returns its own tree, so two programs hold two objects for one request",
 edits=[("internal/utils/host.go", "	result, _ := sourceFileCache.LoadOrStore(key, sourceFile)\n	return result\n", "	sourceFileCache.Store(key, sourceFile)\n	return sourceFile\n")],
 pkg="internal/utils", test=HOST + '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		text := "let x;" + string(rune(0x4e00+i))
		var got [8]*ast.SourceFile
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := range got {
			wg.Go(func() { <-start; got[k] = open("/a.ts", "/a.ts", text, false) })
		}
		close(start)
		wg.Wait()
		for _, g := range got {
			if g != got[0] {
				t.Fatal("one request, two trees")
			}
		}
	}
}
''')
seed(id="P05-prefix", property="P05", needs="a virtual file in a directory whose name continues the name of the queried one",
 breaks="a directory whose name is a prefix of another one lists that one's virtual files",
 edits=[("internal/utils/overlay_vfs.go", "	normalizedPath := tspath.NormalizePath(path)\n	if !strings.HasSuffix(normalizedPath, \"/\") {\n		normalizedPath = normalizedPath + \"/\"\n	}\n	for virtualFilePath := range vfs.VirtualFiles {\n		if strings.HasPrefix", "	normalizedPath := tspath.RemoveTrailingDirectorySeparator(tspath.NormalizePath(path))\n	for virtualFilePath := range vfs.VirtualFiles {\n		if strings.HasPrefix")],
 pkg="internal/utils", test='''
package utils

import (
	"testing"

	"github.com/typescript-eslint/tsgolint/internal/zzmem"
)

func TestSeedDemo(t *testing.T) {
	o := NewOverlayVFS(&zzmem.Mem{Files: map[string]string{}}, map[string]string{"/a/src-gen/x.ts": ""})
	if o.DirectoryExists("/a/src") || !o.DirectoryExists("/a/src-gen") || !o.DirectoryExists("/a") {
		t.Fatal("directories")
	}
}
''')
