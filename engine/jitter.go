package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Schedule counterexamples are replayed on a build of the real code in which every statement of the
// repository and the harness is preceded by a delay point; delays are drawn at random and, with
// preference, taken where the counterexample switches between goroutines.

const jitSrc = `package jit

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var (
	on   bool
	mode uint64
	rng  uint64
	slept int64
	hint = map[int]bool{}
)

func init() {
	s, err := strconv.Atoi(os.Getenv("SV_JITTER"))
	if err != nil {
		return
	}
	on = true
	mode = uint64(s) % 4
	rng = uint64(s+1) * 0x9E3779B97F4A7C15
	for _, f := range strings.Split(os.Getenv("SV_HINTS"), ",") {
		if n, err := strconv.Atoi(f); err == nil {
			hint[n] = true
		}
	}
}

func P(id int) {
	if !on {
		return
	}
	x := atomic.AddUint64(&rng, 0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	if mode != 2 && hint[id] && x%4 != 0 && atomic.AddInt64(&slept, 1) < 50 {
		time.Sleep(time.Millisecond + time.Duration(x>>8%2000)*time.Microsecond)
		return
	}
	if mode == 0 {
		return
	}
	switch x % 16 {
	case 0, 1:
		time.Sleep(time.Duration(x>>8%150) * time.Microsecond)
	case 2, 3:
		runtime.Gosched()
	}
}
`

type site struct {
	file string
	line int
}

const jitImport = modPath + "/internal/zzverif/jit"

// instrument rewrites one file; sites are appended to *sites.
func instrument(path string, src []byte, sites *[]site) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil
	}
	type ins struct {
		at   int
		text string
	}
	var is []ins
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			p := fs.Position(s.Pos())
			is = append(is, ins{p.Offset, fmt.Sprintf("zzjit.P(%d); ", len(*sites))})
			*sites = append(*sites, site{path, p.Line})
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
	}
	if len(is) == 0 {
		return nil
	}
	is = append(is, ins{off(f.Name.End()), "; import zzjit \"" + jitImport + "\""})
	sort.SliceStable(is, func(i, j int) bool { return is[i].at < is[j].at })
	var out []byte
	last := 0
	for _, x := range is {
		out = append(out, src[last:x.at]...)
		out = append(out, x.text...)
		last = x.at
	}
	return append(out, src[last:]...)
}

// instrumentAll adds instrumented versions of the loaded repository packages and the harness to ov.
func instrumentAll(P *Program, repo, pkg, dir string, ov map[string]string) []site {
	var sites []site
	n := 0
	do := func(dst, from string) {
		src, err := os.ReadFile(from)
		if err != nil {
			return
		}
		if b := instrument(dst, src, &sites); b != nil {
			f := filepath.Join(dir, fmt.Sprintf("j%d.go", n))
			n++
			os.WriteFile(f, b, 0o644)
			ov[dst] = f
		}
	}
	var paths []string
	for p := range P.pkgs {
		if p == modPath || strings.HasPrefix(p, modPath+"/") && !strings.Contains(p, "/zzverif/") && !strings.HasPrefix(p, modPath+"/types/") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		d := filepath.Join(repo, strings.TrimPrefix(p, modPath))
		ents, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			dst := filepath.Join(d, e.Name())
			from := dst
			if o, ok := ov[dst]; ok {
				from = o
			}
			do(dst, from)
		}
	}
	hd := filepath.Join(repo, "internal/zzverif", pkg)
	var hf []string
	for dst := range ov {
		if filepath.Dir(dst) == hd {
			hf = append(hf, dst)
		}
	}
	sort.Strings(hf)
	for _, dst := range hf {
		do(dst, ov[dst])
	}
	jf := filepath.Join(dir, "jit.go")
	os.WriteFile(jf, []byte(jitSrc), 0o644)
	ov[filepath.Join(repo, "internal/zzverif/jit/jit.go")] = jf
	return sites
}

// hints returns the delay points that precede the goroutine switches of a counterexample.
func (n *Native) hints(evs []schedEv) string {
	var out []string
	for _, e := range evs {
		best := -1
		for i, s := range n.sites {
			if s.file == e.File && s.line <= e.Line && (best < 0 || s.line >= n.sites[best].line) {
				best = i
			}
		}
		if best >= 0 {
			out = append(out, fmt.Sprint(best))
		}
	}
	return strings.Join(out, ",")
}

// event records that goroutine g is about to be switched away from.
func (in *Interp) event(to *G) {
	if in.cur == nil {
		return
	}
	for f := in.cur.top; f != nil; f = f.caller {
		if f.fn == nil || f.instr == nil || f.instr.Pos() == token.NoPos {
			continue
		}
		if !f.info.repo && !in.inHarness(f.fn) {
			continue
		}
		p := in.P.fset.Position(f.instr.Pos())
		in.events = append(in.events, schedEv{G: in.cur.id, To: to.id, File: p.Filename, Line: p.Line})
		return
	}
}

func (in *Interp) inHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/internal/zzverif/") && !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/sv")
}
