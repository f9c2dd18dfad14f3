package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// nativeBuild compiles the harness and the command line natively (with the
// same constant scaling) and runs harnesses in scratch directories.
type nativeBuild struct {
	dir  string
	done chan struct{}
	err  error
	race bool
	n    int64
}

func startNative(ld *Loaded, hdir, repo string, race, cli bool) *nativeBuild {
	nb := &nativeBuild{done: make(chan struct{}), race: race}
	d, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		nb.err = err
		close(nb.done)
		return nb
	}
	nb.dir = d
	go func() {
		defer close(nb.done)
		ov, err := ld.writeOverlay(d)
		if err != nil {
			nb.err = err
			return
		}
		build := func(out, pkg string, race bool) error {
			args := []string{"build", "-ldflags=-checklinkname=0", "-overlay", ov, "-o", filepath.Join(d, out)}
			if race {
				args = append(args, "-race")
			}
			cmd := exec.Command("go", append(args, pkg)...)
			cmd.Dir = hdir
			if b, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("%s: %v\n%s", pkg, err, b)
			}
			return nil
		}
		if nb.err = build("replay", "./cmd/replay", race); nb.err != nil {
			return
		}
		if cli {
			nb.err = build("setup-cli", modPath, false)
		}
	}()
	return nb
}

func (nb *nativeBuild) wait() error {
	<-nb.done
	return nb.err
}

func (nb *nativeBuild) cleanup() {
	<-nb.done
	if nb.dir != "" && strings.Contains(filepath.Base(nb.dir), "symgo-") {
		os.RemoveAll(nb.dir)
	}
}

type nativeResult struct {
	kind string // ok, violation, skip, error
	msg  string
	out  string
}

func (nb *nativeBuild) run(harness string, w map[string]string, seed string, thorough bool, limit time.Duration) nativeResult {
	if err := nb.wait(); err != nil {
		return nativeResult{"error", err.Error(), ""}
	}
	id := atomic.AddInt64(&nb.n, 1)
	dir := filepath.Join(nb.dir, fmt.Sprintf("run%d", id))
	if err := os.Mkdir(dir, 0o755); err != nil {
		return nativeResult{"error", err.Error(), ""}
	}
	defer os.RemoveAll(dir)
	wf := filepath.Join(nb.dir, fmt.Sprintf("w%d.json", id))
	b, _ := json.Marshal(w)
	if err := os.WriteFile(wf, b, 0o644); err != nil {
		return nativeResult{"error", err.Error(), ""}
	}
	so := filepath.Join(nb.dir, fmt.Sprintf("out%d", id))
	of, err := os.OpenFile(so, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o644)
	if err != nil {
		return nativeResult{"error", err.Error(), ""}
	}
	defer of.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	argv := []string{filepath.Join(nb.dir, "replay"), harness, wf, seed, so}
	if !nb.race {
		argv = append([]string{"prlimit", fmt.Sprintf("--as=%d", int64(maxBytes))}, argv...)
	}
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "SYM_CLI="+filepath.Join(nb.dir, "setup-cli"), fmt.Sprintf("SYM_THOROUGH=%v", thorough), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	for k, v := range w {
		if strings.HasPrefix(k, "env:") {
			cmd.Env = append(cmd.Env, k[4:]+"="+v)
		}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = of
	err = cmd.Run()
	es := errb.String()
	tail := es
	if len(tail) > 3000 {
		tail = tail[:3000]
	}
	if ctx.Err() != nil {
		return nativeResult{"error", unfinished, tail}
	}
	if err == nil {
		if strings.Contains(es, "WARNING: DATA RACE") {
			return nativeResult{"violation", "data race", tail}
		}
		if strings.Contains(es, "SYM-DONE") {
			return nativeResult{"ok", "", ""}
		}
		return nativeResult{"violation", "the process exited before the harness ended", tail}
	}
	var xe *exec.ExitError
	if !errors.As(err, &xe) {
		return nativeResult{"error", err.Error(), tail}
	}
	switch xe.ExitCode() {
	case 41:
		for _, l := range strings.Split(es, "\n") {
			if strings.HasPrefix(l, "SYM-VIOLATION ") {
				return nativeResult{"violation", strings.TrimPrefix(l, "SYM-VIOLATION "), tail}
			}
		}
		return nativeResult{"violation", "?", tail}
	case 42:
		return nativeResult{"skip", "", ""}
	case 66:
		return nativeResult{"violation", "data race", tail}
	case 2, 1:
		for _, l := range strings.Split(es, "\n") {
			if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
				if strings.Contains(es, "out of memory") || strings.Contains(es, "cannot allocate") {
					return nativeResult{"violation", l, tail}
				}
				return nativeResult{"violation", l, tail}
			}
		}
	}
	return nativeResult{"error", err.Error(), tail}
}

const unfinished = "native run did not finish in time"

// confirm runs a counterexample on the compiled code. One that needs luck is
// tried often, with other random values.
func (nb *nativeBuild) confirm(harness string, v Violation, seed string, thorough bool) (nativeResult, map[string]string, string) {
	var last nativeResult
	limit := 120 * time.Second
	hangs := strings.Contains(v.Msg, "deadlock")
	if hangs {
		limit = 40 * time.Second
	}
	for try := 0; try < 3; try++ {
		sd := fmt.Sprintf("%s.%d", seed, try)
		last = nb.run(harness, v.Witness, sd, thorough, limit)
		if last.msg == unfinished && hangs {
			last.kind, last.msg = "violation", "the operation does not end: "+v.Msg
		}
		if last.kind == "violation" {
			return last, v.Witness, sd
		}
		if last.msg == unfinished {
			break
		}
	}
	if !v.Chance {
		return last, v.Witness, ""
	}
	loose := map[string]string{}
	for k, x := range v.Witness {
		if len(x) < 25 {
			loose[k] = x
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	found := false
	var w map[string]string
	var seed2 string
	t0 := time.Now()
	var n int64
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				try := atomic.AddInt64(&n, 1)
				mu.Lock()
				stop := found
				mu.Unlock()
				if stop || try > 3000 || time.Since(t0) > 150*time.Second {
					return
				}
				sd, ww := fmt.Sprintf("%s.c%d", seed, try), v.Witness
				if try%4 != 0 {
					ww = loose
				}
				r := nb.run(harness, ww, sd, thorough, 60*time.Second)
				mu.Lock()
				if r.kind == "violation" && !found {
					found, last, w, seed2 = true, r, ww, sd
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return last, w, seed2
}
