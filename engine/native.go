package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Native is the natively compiled harness binary of one harness package.
type Native struct {
	bin   string
	dir   string
	err   error
	race  bool
	sites []site
}

// buildNative compiles harness package pkg with the real code.
func buildNative(verif, repo, pkg string, hs []*Harness, extra map[string][]byte, race bool, jit *Program) *Native {
	n := &Native{race: race}
	n.dir, n.err = os.MkdirTemp("", "svnat")
	if n.err != nil {
		return n
	}
	ov, err := overlayFor(verif, repo, pkg, true)
	if err != nil {
		n.err = err
		return n
	}
	i := 0
	for k, v := range extra {
		f := filepath.Join(n.dir, fmt.Sprintf("x%d.go", i))
		i++
		os.WriteFile(f, v, 0o644)
		ov[k] = f
	}
	if jit != nil {
		n.sites = instrumentAll(jit, repo, pkg, n.dir, ov)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\nimport (\"%s/internal/zzverif/sv\"; h \"%s/internal/zzverif/%s\")\nfunc main() { sv.Main(map[string]func(){\n", modPath, modPath, pkg)
	for _, h := range hs {
		fmt.Fprintf(&b, "%q: h.%s,\n", h.Name, h.Func)
	}
	b.WriteString("})}\n")
	mf := filepath.Join(n.dir, "main.go")
	os.WriteFile(mf, b.Bytes(), 0o644)
	ov[filepath.Join(repo, "internal/zzverif/cmd/main.go")] = mf
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	n.bin = filepath.Join(n.dir, "h")
	args := []string{"build", "-overlay", of, "-o", n.bin}
	if race {
		args = append(args, "-race")
	}
	if t := readSpec(verif, pkg).tags; t != "" {
		args = append(args, "-tags", t)
	}
	args = append(args, "./internal/zzverif/cmd")
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = repoEnv()
	if race {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	}
	out, err := c.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, trunc(string(out), 2000))
	}
	return n
}

func (n *Native) cleanup() {
	if n != nil && n.dir != "" && strings.Contains(n.dir, "svnat") {
		os.RemoveAll(n.dir)
	}
}

type natRes struct {
	exit    int
	out     string
	obs     []ObsVal
	label   string
	timeout bool
}

func (n *Native) run(h string, vec string, deep bool, jitter int, hints string, to time.Duration) natRes {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 20000000; exec \"$0\"", n.bin)
	if n.race {
		c = exec.CommandContext(ctx, n.bin)
	}
	c.Dir = n.dir
	c.Env = append(os.Environ(), "SV_HARNESS="+h, "SV_VEC="+vec, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	if deep {
		c.Env = append(c.Env, "SV_DEEP=1")
	}
	if jitter > 0 {
		c.Env = append(c.Env, fmt.Sprintf("SV_JITTER=%d", jitter), "SV_HINTS="+hints)
		if jitter%3 == 1 {
			c.Env = append(c.Env, "GOMAXPROCS=1")
		}
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	c.WaitDelay = time.Second
	err := c.Run()
	r := natRes{out: b.String()}
	if ctx.Err() != nil {
		r.timeout = true
		r.exit = -1
	} else if err != nil {
		r.exit = c.ProcessState.ExitCode()
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "SV-OBS ") {
			f := strings.SplitN(l, " ", 3)
			v := ""
			if len(f) == 3 {
				v = f[2]
			}
			r.obs = append(r.obs, ObsVal{f[1], v})
		}
		if strings.HasPrefix(l, "SV-VIOLATION ") {
			r.label = l[len("SV-VIOLATION "):]
		}
	}
	return r
}

// failed reports whether the native run shows a violation.
func (r natRes) failed() bool {
	switch {
	case r.timeout:
		return true
	case r.exit == 3, r.exit == 66:
		return true
	case r.exit == 0, r.exit == 4, r.exit == 9:
		return false
	}
	return true
}

func (r natRes) summary() string {
	if r.timeout {
		return "native run did not terminate"
	}
	if r.label != "" {
		return "native run: assertion " + r.label + " failed"
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			return "native run: " + l
		}
	}
	return fmt.Sprintf("native run: exit %d", r.exit)
}
