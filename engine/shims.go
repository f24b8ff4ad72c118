package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Shims are generated from the current source on every run. They give harnesses access to the
// boundary of the repository with its environment and change nothing else.

func init() {
	shims["guest"] = wasmImports
	shims["rxw"] = wasmImports
	shims["host"] = hostRuntime
	shims["mesh"] = meshWorld
	shims["uuid"] = uuidClock
	shims["rsocket"] = netWorld
}

// netWorld makes the TCP transport listen on and dial the network of the harness, whose environment it reads.
func netWorld(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	dir := filepath.Join(repo, "transport/rsocket")
	err := redirectDir(dir, map[string]string{
		"net.Dialer":       "type verifDialer",
		"net.ListenConfig": "type verifListenConfig",
		"net.Dial":         "verifDial",
		"net.DialTimeout":  "verifDialTimeout",
		"net.Listen":       "verifListen",
		"os.Getenv":        "verifGetenv",
		"os.LookupEnv":     "verifLookupEnv",
	}, out)
	out[filepath.Join(dir, "zz_verif.go")] = []byte(`package rsocket

import (
	"context"
	"net"
	"time"
)

var (
	// VerifDial connects.
	VerifDial func(ctx context.Context, network, addr string) (net.Conn, error)
	// VerifListen listens.
	VerifListen func(network, addr string) (net.Listener, error)
	// VerifEnv is the environment.
	VerifEnv map[string]string
)

type verifDialer net.Dialer

func (*verifDialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return VerifDial(ctx, network, addr)
}

func (*verifDialer) Dial(network, addr string) (net.Conn, error) {
	return VerifDial(context.Background(), network, addr)
}

type verifListenConfig net.ListenConfig

func (*verifListenConfig) Listen(_ context.Context, network, addr string) (net.Listener, error) {
	return VerifListen(network, addr)
}

func verifDial(network, addr string) (net.Conn, error) {
	return VerifDial(context.Background(), network, addr)
}

func verifDialTimeout(network, addr string, _ time.Duration) (net.Conn, error) {
	return VerifDial(context.Background(), network, addr)
}

func verifListen(network, addr string) (net.Listener, error) { return VerifListen(network, addr) }

func verifGetenv(key string) string { return VerifEnv[key] }

func verifLookupEnv(key string) (string, bool) {
	v, ok := VerifEnv[key]
	return v, ok
}
`)
	return out, err
}

// uuidClock makes the UUID package read a clock that the harness sets.
func uuidClock(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	dir := filepath.Join(repo, "types", "uuid")
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		p := filepath.Join(dir, e.Name())
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			return nil, err
		}
		var at []int
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Now" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "time" && x.Obj == nil {
					at = append(at, fs.Position(s.Pos()).Offset)
				}
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		for i := len(at) - 1; i >= 0; i-- {
			src = append(src[:at[i]:at[i]], append([]byte("verifNow"), src[at[i]+len("time.Now"):]...)...)
		}
		out[p] = append(src, "\n\nvar _ = time.Now\n"...)
	}
	out[filepath.Join(dir, "zz_verif.go")] = []byte(`package uuid

import "time"

// VerifClock is the clock if it is set.
var VerifClock func() time.Time

func verifNow() time.Time {
	if VerifClock != nil {
		return VerifClock()
	}
	return time.Now()
}
`)
	return out, nil
}

var uintptrLen = regexp.MustCompile(`uintptr\((len\(\w+\))\)`)

// wasmImports gives bodies to the functions that the WebAssembly build imports: they call exported
// variables named VerifImport and the name of the import.
func wasmImports(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == "example" || n == "node_modules" || n == ".git" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil || !forWasm(src) {
			return nil
		}
		if b := giveBodies(p, src); b != nil {
			out[p] = b
		}
		return nil
	})
	return out, err
}

// forWasm tells whether the file belongs to the WebAssembly build only.
func forWasm(src []byte) bool {
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				return false
			}
			with := x.Eval(func(t string) bool { return t == "tinygo.wasm" })
			without := x.Eval(func(t string) bool { return false })
			return with && !without
		}
	}
	return false
}

func giveBodies(p string, src []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
	if err != nil {
		return nil
	}
	type edit struct {
		at   int
		text string
	}
	var es []edit
	vars := ""
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body != nil || fd.Recv != nil {
			continue
		}
		name := fd.Name.Name
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				w := strings.Fields(c.Text)
				if len(w) >= 2 && (w[0] == "//go:export" || w[0] == "//export") {
					name = w[1]
				}
				if len(w) >= 3 && w[0] == "//go:wasmimport" {
					name = w[2]
				}
			}
		}
		end := fs.Position(fd.End()).Offset
		if strings.Contains(name, ".") {
			es = append(es, edit{end, fmt.Sprintf(" { panic(%q) }", name)})
			continue
		}
		var args []string
		for _, q := range fd.Type.Params.List {
			for _, n := range q.Names {
				args = append(args, n.Name)
			}
		}
		v := "VerifImport" + name
		sig := string(src[fs.Position(fd.Type.Params.Pos()).Offset:end])
		vars += fmt.Sprintf("\nvar %s func%s\n", v, sig)
		call := fmt.Sprintf("%s(%s)", v, strings.Join(args, ", "))
		if fd.Type.Results != nil {
			call = "return " + call
		}
		es = append(es, edit{end, " { " + call + " }"})
	}
	s := string(src)
	for i := len(es) - 1; i >= 0; i-- {
		s = s[:es[i].at] + es[i].text + s[es[i].at:]
	}
	s += vars
	// lengths of slice headers are uintptr in TinyGo only
	s = uintptrLen.ReplaceAllString(s, "$1")
	if s == string(src) {
		return nil
	}
	return []byte(s)
}

// redirect replaces the uses of exported names of imported packages in a file, types being marked
// as such. It returns nil if there are none.
func redirect(p string, to map[string]string) ([]byte, error) {
	src, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, src, 0)
	if err != nil {
		return nil, err
	}
	paths := map[string]string{}
	for _, im := range f.Imports {
		v, _ := strconv.Unquote(im.Path.Value)
		name := path.Base(v)
		if im.Name != nil {
			name = im.Name.Name
		}
		paths[name] = v
	}
	type edit struct {
		from, to int
		text     string
	}
	var es []edit
	keep := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if !ok || x.Obj != nil {
			return true
		}
		if t := to[paths[x.Name]+"."+s.Sel.Name]; t != "" {
			t, isType := strings.CutPrefix(t, "type ")
			es = append(es, edit{fs.Position(s.Pos()).Offset, fs.Position(s.End()).Offset, t})
			keep[x.Name+"."+s.Sel.Name] = isType
		}
		return true
	})
	if len(es) == 0 {
		return nil, nil
	}
	out := string(src)
	for i := len(es) - 1; i >= 0; i-- {
		out = out[:es[i].from] + es[i].text + out[es[i].to:]
	}
	// imports stay in use
	for k, isType := range keep {
		if isType {
			out += "\n\nvar _ " + k + "\n"
		} else {
			out += "\n\nvar _ = " + k + "\n"
		}
	}
	return []byte(out), nil
}

func redirectDir(dir string, to map[string]string, out map[string][]byte) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		p := filepath.Join(dir, e.Name())
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			continue
		}
		b, err := redirect(p, to)
		if err != nil {
			return err
		}
		if b != nil {
			out[p] = b
		}
	}
	return nil
}

// hostRuntime gives the host a WebAssembly runtime that the harness makes.
func hostRuntime(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	dir := filepath.Join(repo, "transport/wasmrs/host")
	const w, as, wasi = "github.com/tetratelabs/wazero.", "github.com/tetratelabs/wazero/imports/assemblyscript.", "github.com/tetratelabs/wazero/imports/wasi_snapshot_preview1."
	err := redirectDir(dir, map[string]string{
		w + "NewRuntime":                  "verifRuntime",
		w + "NewRuntimeWithConfig":        "verifRuntime",
		w + "NewRuntimeConfig":            "verifConfig",
		w + "NewRuntimeConfigCompiler":    "verifConfig",
		w + "NewRuntimeConfigInterpreter": "verifConfig",
		wasi + "Instantiate":              "verifInstantiate",
		wasi + "MustInstantiate":          "verifMustInstantiate",
		as + "Instantiate":                "verifInstantiate",
		as + "MustInstantiate":            "verifMustInstantiate",
		as + "NewFunctionExporter":        "verifExporter",
	}, out)
	out[filepath.Join(dir, "zz_verif.go")] = []byte(`package host

import (
	"context"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"
	"github.com/tetratelabs/wazero/imports/assemblyscript"
)

// VerifRuntime makes the WebAssembly runtime.
var VerifRuntime func() wazero.Runtime

func verifRuntime(ctx context.Context, _ ...wazero.RuntimeConfig) wazero.Runtime { return VerifRuntime() }

type verifRuntimeConfig struct{ wazero.RuntimeConfig }

func (c verifRuntimeConfig) WithCoreFeatures(api.CoreFeatures) wazero.RuntimeConfig      { return c }
func (c verifRuntimeConfig) WithMemoryLimitPages(uint32) wazero.RuntimeConfig           { return c }
func (c verifRuntimeConfig) WithMemoryCapacityFromMax(bool) wazero.RuntimeConfig        { return c }
func (c verifRuntimeConfig) WithDebugInfoEnabled(bool) wazero.RuntimeConfig             { return c }
func (c verifRuntimeConfig) WithCompilationCache(wazero.CompilationCache) wazero.RuntimeConfig { return c }

func verifConfig() wazero.RuntimeConfig { return verifRuntimeConfig{} }

type verifCloser struct{}

func (verifCloser) Close(context.Context) error { return nil }

func verifInstantiate(context.Context, wazero.Runtime) (api.Closer, error) { return verifCloser{}, nil }
func verifMustInstantiate(context.Context, wazero.Runtime)                 {}

type verifFunctionExporter struct{ assemblyscript.FunctionExporter }

func (e verifFunctionExporter) WithAbortMessageDisabled() assemblyscript.FunctionExporter { return e }
func (e verifFunctionExporter) WithTraceToStdout() assemblyscript.FunctionExporter        { return e }
func (e verifFunctionExporter) WithTraceToStderr() assemblyscript.FunctionExporter        { return e }
func (e verifFunctionExporter) ExportFunctions(wazero.HostModuleBuilder)                  {}

func verifExporter() assemblyscript.FunctionExporter { return verifFunctionExporter{} }
`)
	return out, err
}

// meshWorld is hostRuntime, and the mesh reads the files and waits for the time that the harness says.
func meshWorld(repo string) (map[string][]byte, error) {
	out, err := hostRuntime(repo)
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(repo, "transport/wasmrs/mesh")
	err = redirectDir(dir, map[string]string{
		"os.ReadFile":    "verifRead",
		"time.Sleep":     "verifSleep",
		"time.After":     "verifAfter",
		"time.AfterFunc": "verifAfterFunc",
	}, out)
	out[filepath.Join(dir, "zz_verif.go")] = []byte(`package mesh

import "time"

var (
	// VerifRead reads a file.
	VerifRead func(string) ([]byte, error)
	// VerifSleep waits.
	VerifSleep func()
)

func verifRead(name string) ([]byte, error) { return VerifRead(name) }

func verifSleep(time.Duration) { VerifSleep() }

func verifAfter(time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go func() {
		VerifSleep()
		c <- time.Time{}
	}()
	return c
}

func verifAfterFunc(_ time.Duration, f func()) *time.Timer {
	go func() {
		VerifSleep()
		f()
	}()
	return nil
}
`)
	return out, err
}
