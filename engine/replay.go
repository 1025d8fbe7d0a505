package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type outcome struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type replayer struct {
	bin     string
	tier    int
	harn    string
	pkg     string
	overlay string
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env = append(env[:i], env[i+1:]...)
				break
			}
		}
		env = append(env, k+"="+v)
	}
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOFLAGS", "-mod=mod")
	set("GOWORK", "off")
	return env
}

// buildReplay compiles the native twin of the harnesses against /repo's current tree.
func buildReplay(harnDir, pkg, scratch string, race bool, overlay string) (string, error) {
	bin := filepath.Join(scratch, "replay")
	args := []string{"build"}
	if race {
		bin += "-race"
		args = append(args, "-race")
	}
	if overlay != "" {
		args = append(args, "-overlay", overlay)
	}
	if buildTags != "" {
		args = append(args, "-tags", buildTags)
	}
	args = append(args, "-o", bin, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = harnDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the native replay: %v\n%s", err, out)
	}
	return bin, nil
}

// run executes traces in one process and returns the outcomes that came back before the process ended.
func (r *replayer) run(ts []map[string]any, timeout time.Duration) (outs []outcome, exit string) {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, t := range ts {
		enc.Encode(t)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err.Error()
	}
	cmd := exec.Command("prlimit", "--as=12000000000", r.bin, fmt.Sprint(r.tier))
	if strings.HasSuffix(r.bin, "-race") {
		cmd = exec.Command(r.bin, fmt.Sprint(r.tier))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1")
	}
	cmd.Stdin = &in
	var se bytes.Buffer
	cmd.Stderr = &limitWriter{w: &se, n: 1 << 16}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return nil, err.Error()
	}
	pw.Close()
	tm := time.AfterFunc(timeout, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	dec := json.NewDecoder(pr)
	for {
		var o outcome
		if dec.Decode(&o) != nil {
			break
		}
		outs = append(outs, o)
	}
	pr.Close()
	err = cmd.Wait()
	killed := !tm.Stop()
	if err != nil {
		exit = err.Error()
		if killed {
			exit = "timeout"
		}
		if s := se.String(); s != "" {
			l := strings.SplitN(s, "\n", 2)[0]
			exit += ": " + l
		}
		if strings.Contains(se.String(), "DATA RACE") {
			exit = "DATA RACE"
		}
	}
	return outs, exit
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

func req(h string, in map[string]uint64, rep int) map[string]any {
	return map[string]any{"harness": h, "inputs": in, "repeat": rep}
}

// confirm replays one counterexample natively; ok reports whether the real code shows the violation.
func (r *replayer) confirm(v *Violation) (ok bool, what string) {
	if v.Kind == "schedule" {
		return r.confirmSchedule(v)
	}
	rep := 1
	if v.Kind == "maporder" {
		rep = 300
	}
	return r.confirmReq(req(v.Harness, v.Inputs, rep))
}

func (r *replayer) confirmReq(q map[string]any) (ok bool, what string) {
	outs, exit := r.run([]map[string]any{q}, 60*time.Second)
	if len(outs) == 0 {
		if exit == "" {
			exit = "no result"
		}
		return true, "process ended: " + exit
	}
	o := outs[0]
	switch o.Status {
	case "violation", "panic", "hang":
		return true, o.Status + ": " + o.Msg
	}
	if strings.HasPrefix(exit, "DATA RACE") {
		return true, exit
	}
	return false, o.Status + " " + o.Msg
}

// confirmSchedule replays a counterexample with several goroutines: in the recorded order of threads on a build in
// which the repository's package sync is one that follows it, then freely, many times, under the race detector.
func (r *replayer) confirmSchedule(v *Violation) (bool, string) {
	scratch, err := os.MkdirTemp("", "aminosched")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(scratch)
	what := ""
	ov, err := syncOverlay(r.harn, scratch, r.overlay)
	if err == nil {
		var bin string
		if bin, err = buildReplay(r.harn, r.pkg, scratch, false, ov); err == nil {
			q := req(v.Harness, v.Inputs, 1)
			q["sched"] = v.Sched
			f := &replayer{bin: bin, tier: r.tier}
			ok, w := f.confirmReq(q)
			if ok && !strings.HasPrefix(w, "hang") && !strings.Contains(w, "timeout") {
				return true, "schedule replayed, " + w
			}
			what = "in the recorded order: " + w + "; "
		}
	}
	if err != nil {
		what = err.Error() + "; "
	}
	bin, err := buildReplay(r.harn, r.pkg, scratch, true, r.overlay)
	if err != nil {
		return false, what + err.Error()
	}
	f := &replayer{bin: bin, tier: r.tier}
	ok, w := f.confirmReq(req(v.Harness, v.Inputs, 2000))
	return ok, what + "under the race detector: " + w
}

// syncOverlay replaces package sync in the sources of the repository's root package.
func syncOverlay(harn, scratch, base string) (string, error) {
	repo, err := repoDir(harn)
	if err != nil {
		return "", err
	}
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return "", err
	}
	var o struct{ Replace map[string]string }
	if base != "" {
		b, err := os.ReadFile(base)
		if err == nil {
			err = json.Unmarshal(b, &o)
		}
		if err != nil {
			return "", err
		}
	}
	if o.Replace == nil {
		o.Replace = map[string]string{}
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ImportsOnly)
		if err != nil {
			return "", err
		}
		for _, im := range a.Imports {
			if im.Path.Value == `"sync"` && im.Name == nil {
				n := fs.Position(im.Path.Pos()).Offset
				t := string(src[:n]) + `sync "aminoharness/ssync"` + string(src[n+len(im.Path.Value):])
				to := filepath.Join(scratch, "sync_"+filepath.Base(f))
				if err := os.WriteFile(to, []byte(t), 0o644); err != nil {
					return "", err
				}
				o.Replace[f] = to
			}
		}
	}
	b, _ := json.Marshal(o)
	to := filepath.Join(scratch, "sync-overlay.json")
	return to, os.WriteFile(to, b, 0o644)
}
