package main

import (
	"encoding/binary"
	"errors"
	"flag"
	"io"
	"os"
	"path/filepath"

	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/project"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vfix"
	"github.com/typescript-eslint/tsgolint/internal/vlint"
	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

// vRoot is the directory that holds the files of a headless run; natively it is
// created for the run and removed afterwards.
const vRoot = "/tmp/vrt_headless"

var vErrIO = errors.New("input/output error")

// the environment of a headless run
type vOS struct {
	fs       *vfix.MemFS
	stdin    string
	stdinErr bool
	cwdErr   bool
	out, err []byte
	exited   bool
}

var vEnv *vOS

// vMutateEnv, when set, changes the answers of the project system.
var vMutateEnv func(*project.Env)

//vrt:replace io.ReadAll
func vReadAll(r io.Reader) ([]byte, error) {
	if vEnv.stdinErr {
		return nil, vErrIO
	}
	return []byte(vEnv.stdin), nil
}

//vrt:replace os.Getwd
func vGetwd() (string, error) {
	if vEnv.cwdErr {
		return "", vErrIO
	}
	return vRoot, nil
}

//vrt:replace (*os.File).Write
func vWrite(f *os.File, b []byte) (int, error) {
	vrt.Yield()
	if f == os.Stdout {
		vEnv.out = append(vEnv.out, b...)
	} else if f == os.Stderr {
		vEnv.err = append(vEnv.err, b...)
	}
	return len(b), nil
}

//vrt:replace (*os.File).WriteString
func vWriteString(f *os.File, s string) (int, error) { return vWrite(f, []byte(s)) }

//vrt:replace github.com/microsoft/typescript-go/internal/vfs/osvfs.FS
func vOsFS() vfs.FS { return vEnv.fs }

//vrt:replace github.com/microsoft/typescript-go/internal/bundled.WrapFS
func vWrapFS(fs vfs.FS) vfs.FS { return fs }

// vHeadless runs the headless mode with the given files below vRoot.
func vHeadless(files map[string]string, stdin string, args []string) (out []byte, code int) {
	e := &vOS{fs: vfix.NewMemFS(), stdin: stdin}
	return vHeadlessIn(e, files, args)
}

func vHeadlessIn(e *vOS, files map[string]string, args []string) (out []byte, code int) {
	return vRunIn(e, files, func() int { return runHeadless(args) })
}

// vRunIn runs the program in an environment with the given files below vRoot.
func vRunIn(e *vOS, files map[string]string, run func() int) (out []byte, code int) {
	vEnv = e
	so, si, se, fc, wd := os.Stdout, os.Stdin, os.Stderr, flag.CommandLine, ""
	flag.CommandLine = flag.NewFlagSet("tsgolint", flag.ContinueOnError)
	defer func() {
		os.Stdout, os.Stdin, os.Stderr, flag.CommandLine = so, si, se, fc
		if !vrt.Symbolic() {
			os.Chdir(wd)
			os.RemoveAll("/tmp/vrt_headless")
		}
	}()
	var base vfs.FS
	if vrt.Symbolic() {
		os.Stdout, os.Stdin, os.Stderr = new(os.File), new(os.File), new(os.File)
		lib, _ := vlint.FS(vlint.Config{})
		for n, t := range lib.Files {
			e.fs.Files[n] = t
		}
		for n, t := range files {
			e.fs.Files[vRoot+"/"+n] = t
		}
		base = e.fs
	} else {
		wd, _ = os.Getwd()
		os.RemoveAll("/tmp/vrt_headless")
		for n, t := range files {
			p := filepath.Join(vRoot, n)
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(t), 0o644)
		}
		os.MkdirAll(vRoot+"/.io", 0o755)
		os.Chdir(vRoot)
		os.WriteFile(vRoot+"/.io/in", []byte(e.stdin), 0o644)
		os.Stdin, _ = os.Open(vRoot + "/.io/in")
		if e.stdinErr {
			os.Stdin.Close()
		}
		os.Stdout, _ = os.Create(vRoot + "/.io/out")
		os.Stderr, _ = os.Create(vRoot + "/.io/err")
		base = bundled.WrapFS(osvfs.FS())
	}
	project.DefaultEnv = vConfigs(base, files)
	if vMutateEnv != nil {
		vMutateEnv(project.DefaultEnv)
	}
	code = run()
	if vrt.Symbolic() {
		return e.out, code
	}
	os.Stdout.Close()
	out, _ = os.ReadFile(vRoot + "/.io/out")
	return out, code
}

// vConfigs answers tsconfig queries from the files themselves.
func vConfigs(base vfs.FS, files map[string]string) *project.Env {
	up := func(dir string) string {
		for {
			if len(dir) < len(vRoot) {
				return ""
			}
			if base.FileExists(dir + "/tsconfig.json") {
				return dir + "/tsconfig.json"
			}
			dir = tspath.GetDirectoryPath(dir)
		}
	}
	return &project.Env{
		Compute: func(file string, skip bool) string {
			d := tspath.GetDirectoryPath(file)
			if skip {
				d = tspath.GetDirectoryPath(d)
			}
			return up(d)
		},
		Find: func(name string, path, file tspath.Path) *tsoptions.ParsedCommandLine {
			host := utils.NewCompilerHost(tspath.GetDirectoryPath(name), base, bundled.LibPath(), nil, nil)
			c, _ := tsoptions.GetParsedCommandLineOfConfigFile(name, &core.CompilerOptions{}, nil, host, nil)
			return c
		},
		Ancestor: func(string, tspath.Path, string) string { return "" },
	}
}

type vFrame struct {
	kind byte
	body []byte
}

// vFrames splits output into length-prefixed frames; ok: nothing is left over.
func vFrames(out []byte) (fs []vFrame, ok bool) {
	for len(out) > 0 {
		if len(out) < 5 {
			return fs, false
		}
		n := int(binary.LittleEndian.Uint32(out[:4]))
		if len(out) < 5+n {
			return fs, false
		}
		fs = append(fs, vFrame{out[4], out[5 : 5+n]})
		out = out[5+n:]
	}
	return fs, true
}
