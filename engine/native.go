package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// native replays input assignments against the real build.
type native struct {
	bin      string
	bins     map[string]string
	errs     map[string]error
	bmu      sync.Mutex
	pool     chan *runner
	env      []string
	thorough bool
	build    func(variant string) (string, error)

	mu            sync.Mutex
	Runs, Crashes int64
}

type runner struct {
	cmd  *exec.Cmd
	w    *os.File
	r    *bufio.Reader
	rf   *os.File
	errb *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type nres struct {
	Kind string
	Msg  string
	Obs  map[string]string
}

func (n *native) start(bin string) (*runner, error) {
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(bin)
	c.Dir = filepath.Dir(bin)
	c.Env = append(os.Environ(), "ZZVERIF=1", "ZZSCRATCH="+filepath.Dir(bin), "GORACE=halt_on_error=1", "GOMEMLIMIT=3GiB")
	if strings.HasSuffix(bin, "jitter") {
		c.Env = append(c.Env, "ZZJITTER=1")
	}
	c.ExtraFiles = []*os.File{ir, ow}
	eb := &tailBuf{}
	c.Stderr = eb
	if err := c.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	return &runner{cmd: c, w: iw, rf: or, r: bufio.NewReaderSize(or, 1<<20), errb: eb}, nil
}

func (r *runner) kill() {
	r.w.Close()
	r.cmd.Process.Kill()
	r.cmd.Wait()
	r.rf.Close()
}

// run replays one assignment.
func (n *native) run(harness string, in map[string]int64, reps int, timeout time.Duration) nres {
	return n.runOn(n.bin, n.pool, harness, in, reps, timeout)
}

// runVariant replays on a build with the race detector or with random pauses.
func (n *native) runVariant(variant, harness string, in map[string]int64, reps int, timeout time.Duration) nres {
	n.bmu.Lock()
	if n.bins == nil {
		n.bins, n.errs = map[string]string{}, map[string]error{}
	}
	if n.bins[variant] == "" && n.errs[variant] == nil {
		n.bins[variant], n.errs[variant] = n.build(variant)
	}
	bin, err := n.bins[variant], n.errs[variant]
	n.bmu.Unlock()
	if err != nil {
		return nres{Kind: "error", Msg: err.Error()}
	}
	return n.runOn(bin, nil, harness, in, reps, timeout)
}

func (n *native) runOn(bin string, pool chan *runner, harness string, in map[string]int64, reps int, timeout time.Duration) nres {
	var r *runner
	var err error
	if pool != nil {
		r = <-pool
		defer func() { pool <- r }()
	}
	if r == nil {
		if r, err = n.start(bin); err != nil {
			return nres{Kind: "error", Msg: err.Error()}
		}
	}
	if pool == nil {
		defer func() {
			if r != nil {
				r.kill()
			}
		}()
	}
	n.mu.Lock()
	n.Runs++
	n.mu.Unlock()
	b, _ := json.Marshal(map[string]interface{}{"Harness": harness, "Inputs": in, "Reps": reps, "Thorough": n.thorough, "TimeoutMs": timeout.Milliseconds()})
	r.w.Write(append(b, '\n'))
	type lr struct {
		l   []byte
		err error
	}
	ch := make(chan lr, 1)
	go func() { l, e := r.r.ReadBytes('\n'); ch <- lr{l, e} }()
	var line lr
	select {
	case line = <-ch:
	case <-time.After(timeout*time.Duration(max(1, reps)) + 5*time.Second):
		r.kill()
		<-ch
		r = nil
		return nres{Kind: "hang", Msg: "replay did not answer"}
	}
	if line.err != nil {
		r.kill()
		msg := crashMsg(r.errb.String())
		r = nil
		n.mu.Lock()
		n.Crashes++
		n.mu.Unlock()
		return nres{Kind: "panic", Msg: msg}
	}
	var out nres
	if e := json.Unmarshal(line.l, &out); e != nil {
		return nres{Kind: "error", Msg: e.Error()}
	}
	if out.Kind == "hang" { // the runner exits after reporting one
		r.kill()
		r = nil
	}
	return out
}

func crashMsg(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "DATA RACE") {
			return "data race reported by the race detector"
		}
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return "process ended: " + strings.TrimSpace(s)
}

func (n *native) close() {
	if n == nil || n.pool == nil {
		return
	}
	for i := 0; i < cap(n.pool); i++ {
		if r := <-n.pool; r != nil {
			r.kill()
		}
	}
}

func goEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOWORK=off")
}

func goBuild(repo, overlay, out, pkg string, race bool) error {
	args := []string{"build", "-mod=readonly", "-tags=verif", "-overlay", overlay, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, pkg)
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = append(goEnv(), "GOFLAGS=")
	if race {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		return fmt.Errorf("go build %s: %v\n%s", pkg, err, b.String())
	}
	return nil
}
