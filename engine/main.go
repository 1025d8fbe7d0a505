package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fHarnDir  = flag.String("harness", "/verif/harness", "harness module")
	fOut      = flag.String("out", "/verif", "where evidence and replays are written")
	fOnly     = flag.String("only", "", "run only harnesses whose name contains this")
	fV        = flag.Bool("v", false, "verbose")
	fWorkers  = flag.Int("j", runtime.NumCPU(), "workers")
	fTime     = flag.Duration("time", 0, "time budget of the exploration")
	fPath     = flag.Bool("paths", false, "print every path")
	fProf     = flag.String("cpuprofile", "", "write a CPU profile")
	fSamples  = flag.Int("samples", 40, "sampled paths replayed natively per harness")
	fMaxPaths = flag.Int64("maxpaths", 0, "path limit per harness")
	fNoEv     = flag.Bool("noev", false, "do not write evidence")
)

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

func main() {
	flag.Usage = func() {
		fmt.Fprintln(os.Stderr, "usage: engine [flags] <property> quick|thorough   |   engine replay FILE")
		flag.PrintDefaults()
	}
	flag.Parse()
	if flag.NArg() < 2 {
		flag.Usage()
		os.Exit(3)
	}
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(8 << 30)
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if flag.Arg(0) == "replay" {
		os.Exit(replayFile(flag.Arg(1)))
	}
	rc := check(flag.Arg(0), flag.Arg(1))
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fatalf("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatalf("%v", err)
	}
	scratch, _ := os.MkdirTemp("", "aminoreplay")
	defer os.RemoveAll(scratch)
	prop := strings.SplitN(v.Harness, "_", 2)[0]
	overlay := prepOverlay(prop, scratch)
	_, pkg := harnPkgs(prop)
	bin, err := buildReplay(*fHarnDir, pkg, scratch, false, overlay)
	if err != nil {
		fatalf("%v", err)
	}
	r := &replayer{bin: bin, harn: *fHarnDir, pkg: pkg, overlay: overlay}
	ok, what := r.confirm(&v)
	fmt.Printf("%s: reproduced=%v (%s)\n", v.Harness, ok, what)
	if ok {
		return 1
	}
	return 0
}

func tierOf(s string) int {
	if s == "thorough" {
		return 1
	}
	return 0
}

func check(prop, tierName string) int {
	t0 := time.Now()
	tier := tierOf(tierName)
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	scratch, err := os.MkdirTemp("", "aminocheck")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(scratch)

	overlay := prepOverlay(prop, scratch)
	harn, pkg := harnPkgs(prop)
	// native twin, built in parallel with loading the SSA
	var rep *replayer
	var repErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, err := buildReplay(*fHarnDir, pkg, scratch, false, overlay)
		rep, repErr = &replayer{bin: bin, tier: tier, harn: *fHarnDir, pkg: pkg, overlay: overlay}, err
	}()
	p, err := loadProg(*fHarnDir, goEnv(), []string{harn}, overlayFiles)
	wg.Wait()
	if err != nil || repErr != nil {
		// the tree does not compile with the harnesses: nothing can be decided
		fmt.Printf("%s: cannot build: %v %v\n", prop, err, repErr)
		return 3
	}
	loadTime := time.Since(t0)

	var hs []*Harness
	for name, m := range p.harn.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, prop+"_") && (*fOnly == "" || strings.Contains(name, *fOnly)) {
			hs = append(hs, &Harness{Name: name, fn: f})
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if len(hs) == 0 {
		fatalf("no harness for %s", prop)
	}
	s := newSession(p, tier, seed)
	s.verbose = *fPath
	if tier == 1 {
		s.crossN = 50
	}
	budget := *fTime
	if budget == 0 {
		budget = 8 * time.Minute
		if tier == 1 {
			budget = 40 * time.Minute
		}
	}
	end := time.Now().Add(budget)
	var results []*HarnessResult
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		if len(hs)-i > 1 {
			share *= 2
			// most need little; one may take more as long as there is enough for the others
			if more := min(budget/6, left-time.Duration(len(hs)-i-1)*budget/160); more > share {
				share = more
			}
		}
		if share > left {
			share = left
		}
		r := s.explore(h, *fWorkers, time.Now().Add(share), *fMaxPaths, *fSamples)
		results = append(results, r)
		if *fV {
			printResult(r)
		}
	}
	return conclude(prop, tierName, s, p, rep, results, t0, loadTime)
}

func printResult(r *HarnessResult) {
	fmt.Fprintf(os.Stderr, "%-34s paths=%d %v branches=%d steps=%d asserts=%d proved=%d depth=%d complete=%v %.1fs\n", r.Name, r.Paths, r.ByStatus, r.Branches, r.Steps, r.Asserts, r.Proved, r.MaxDepth, r.Complete, r.Wall.Seconds())
	for _, w := range sortedKeys(r.Why) {
		fmt.Fprintf(os.Stderr, "    %5d x %s\n", r.Why[w], w)
	}
	for _, v := range r.Viol {
		fmt.Fprintf(os.Stderr, "    VIOL %s %v\n", v.Msg, v.Inputs)
	}
}

func loadKnown(out string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(out, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k []knownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	return k
}

func conclude(prop, tierName string, s *Session, p *Prog, rep *replayer, results []*HarnessResult, t0 time.Time, loadTime time.Duration) int {
	known := map[string]knownFinding{}
	for _, k := range loadKnown(*fOut) {
		if k.Property == prop && k.Status == "known" {
			known[k.ID] = k
		}
	}
	// 1. counterexamples: replay each against the real build
	type conf struct {
		v    *Violation
		what string
	}
	var confirmed []conf
	var spurious []string
	for _, r := range results {
		done := map[string]bool{}
		for i := range r.Viol {
			v := &r.Viol[i]
			if done[v.Msg] {
				continue
			}
			ok, what := confirmViolation(rep, v)
			if ok {
				done[v.Msg] = true
				confirmed = append(confirmed, conf{v, what})
			} else {
				spurious = append(spurious, r.Name+": "+v.Msg+" not reproduced natively ("+what+")")
			}
		}
	}
	// 2. sampled paths: the engine's prediction against the real build
	validated, mismatches := validate(rep, results)

	// 3. known findings that showed up
	hitKnown := map[string]bool{}
	for _, r := range results {
		for k := range r.Known {
			hitKnown[k] = true
		}
	}
	var unlisted []string
	for k := range hitKnown {
		if f, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		} else {
			unlisted = append(unlisted, k)
		}
	}

	rc := 0
	for i, c := range confirmed {
		b, _ := json.MarshalIndent(c.v, "", " ")
		h := sha256.Sum256(b)
		dir := filepath.Join(*fOut, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, hex.EncodeToString(h[:6])))
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s: %s\n  native replay: %s\n  inputs: %s\n", c.v.Harness, c.v.Msg, c.what, compactInputs(c.v.Inputs))
		rc = 1
		if i >= 9 {
			break
		}
	}
	for _, k := range unlisted {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, "unlisted-known-finding-"+k)
		rc = 1
	}
	for _, m := range mismatches {
		fmt.Printf("note: engine and native run disagree: %s\n", m)
	}
	for _, m := range spurious {
		fmt.Printf("note: %s\n", m)
	}
	if !*fNoEv {
		writeEvidence(prop, tierName, s, p, results, len(confirmed), validated, mismatches, spurious, t0, loadTime)
	}
	var paths int64
	incomplete := 0
	for _, r := range results {
		paths += r.Paths
		if !r.Complete || inconclusive(r) > 0 {
			incomplete++
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries (%d cached), %d traces validated, %d harnesses with a reduced bound, %d violations, %.1fs\n",
		prop, tierName, len(results), paths, s.queries.Load(), s.cacheHits.Load(), validated, incomplete, len(confirmed), time.Since(t0).Seconds())
	return rc
}

func inconclusive(r *HarnessResult) int64 {
	return r.ByStatus["unsupported"] + r.ByStatus["budget"] + r.ByStatus["huge-alloc"] + r.ByStatus["solver-unknown"]
}

func compactInputs(m map[string]uint64) string {
	var sb strings.Builder
	n := 0
	for _, k := range sortedKeys(m) {
		if m[k] == 0 {
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", k, m[k])
		if n++; n > 60 {
			sb.WriteString("…")
			break
		}
	}
	return strings.TrimSpace(sb.String())
}

func confirmViolation(rep *replayer, v *Violation) (bool, string) {
	return rep.confirm(v)
}

func validate(rep *replayer, results []*HarnessResult) (int, []string) {
	var ts []Trace
	for _, r := range results {
		ts = append(ts, r.Samples...)
	}
	n := 0
	var bad []string
	for len(ts) > 0 {
		var reqs []map[string]any
		for _, t := range ts {
			reqs = append(reqs, req(t.Harness, t.Inputs, 1))
		}
		outs, exit := rep.run(reqs, 5*time.Minute)
		for i, o := range outs {
			t := ts[i]
			if m := differs(t, o); m != "" {
				// the batch shares one process; decide on a fresh one
				o2, _ := rep.run([]map[string]any{req(t.Harness, t.Inputs, 1)}, time.Minute)
				if len(o2) == 1 && differs(t, o2[0]) == "" {
					n++
					continue
				}
				bad = append(bad, t.Harness+" "+m+" inputs: "+compactInputs(t.Inputs))
				continue
			}
			n++
		}
		if len(outs) < len(ts) {
			bad = append(bad, fmt.Sprintf("%s: native process ended (%s) inputs: %s", ts[len(outs)].Harness, exit, compactInputs(ts[len(outs)].Inputs)))
			ts = ts[len(outs)+1:]
			continue
		}
		break
	}
	if len(bad) > 20 {
		bad = append(bad[:20], fmt.Sprintf("... %d more", len(bad)-20))
	}
	return n, bad
}

func differs(t Trace, o outcome) string {
	if o.Status != "ok" {
		return "native " + o.Status + " " + o.Msg
	}
	if len(o.Obs) != len(t.Obs) {
		return fmt.Sprintf("%d observations natively, %d predicted", len(o.Obs), len(t.Obs))
	}
	for i := range o.Obs {
		if o.Obs[i] != t.Obs[i] && !strings.HasSuffix(t.Obs[i], "=?") {
			return fmt.Sprintf("observation %q natively, %q predicted", o.Obs[i], t.Obs[i])
		}
	}
	return ""
}
