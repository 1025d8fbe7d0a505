package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var overlayFiles map[string][]byte

var buildTags string

// prepOverlay writes generated files and returns the overlay file for the go tool.
func prepOverlay(prop, scratch string) string {
	repl := map[string]string{}
	if prop == "C15" || prop == "C22" || prop == "C28" {
		shaOverlay(scratch, repl)
	}
	if prop == "C29" {
		scanOverlay(scratch, repl)
	}
	if len(repl) == 0 {
		return ""
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatalf("overlay: %v", err)
	}
	return f
}

// scanOverlay makes the program aminoscan a package whose main function can be called.
func scanOverlay(scratch string, repl map[string]string) {
	repo, err := repoDir(*fHarnDir)
	if err != nil {
		fatalf("go list: %v", err)
	}
	files, _ := filepath.Glob(filepath.Join(repo, "cmd", "aminoscan", "*.go"))
	overlayFiles = map[string][]byte{}
	put := func(name string, src []byte) {
		to := filepath.Join(repo, "verifscan", name)
		f := filepath.Join(scratch, "scan_"+name)
		if err := os.WriteFile(f, src, 0o644); err != nil {
			fatalf("%v", err)
		}
		repl[to] = f
		overlayFiles[to] = src
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			fatalf("%v", err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.PackageClauseOnly)
		if err != nil {
			fatalf("%v", err)
		}
		n := fs.Position(a.Name.Pos()).Offset
		put(filepath.Base(f), append([]byte(string(src[:n])+"verifscan"), src[n+len(a.Name.Name):]...))
	}
	put("verif_main.go", []byte("package verifscan\n\n// Main is the program.\nfunc Main() { main() }\n"))
}

// repoDir is where the repository is.
func repoDir(harn string) (string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/tendermint/go-amino")
	cmd.Dir, cmd.Env = harn, goEnv()
	out, err := cmd.Output()
	return strings.TrimSpace(string(out)), err
}

// harnPkgs: the packages that hold a property's harnesses and their native twin.
func harnPkgs(prop string) (harn, replay string) {
	if prop == "C29" {
		return "./scan", "./cmd/replayscan"
	}
	return "./h", "./cmd/replay"
}

// shaOverlay lets the native replay answer SHA-256 of symbolic names with the digests of the counterexample
// (the standard library's hash is an uninterpreted function under the engine).
func shaOverlay(scratch string, repl map[string]string) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		fatalf("go env GOROOT: %v", err)
	}
	orig := filepath.Join(strings.TrimSpace(string(out)), "src", "crypto", "sha256", "sha256.go")
	src, err := os.ReadFile(orig)
	if err != nil {
		fatalf("%v", err)
	}
	t := strings.Replace(string(src), "func New() hash.Hash {\n", `func New() hash.Hash {
	if VerifHook != nil {
		return &verifHash{Hash: sha256.New()}
	}
`, 1)
	t = strings.Replace(t, "func Sum256(data []byte) [Size]byte {\n", `func Sum256(data []byte) [Size]byte {
	if VerifHook != nil {
		if d := VerifHook(data); d != nil {
			return [Size]byte(d)
		}
	}
`, 1)
	t += `
// VerifHook gives the digest of some data, or nil.
var VerifHook func(data []byte) []byte

type verifHash struct {
	hash.Hash
	data []byte
}

func (h *verifHash) Write(p []byte) (int, error) { h.data = append(h.data, p...); return h.Hash.Write(p) }
func (h *verifHash) Reset()                      { h.data = nil; h.Hash.Reset() }
func (h *verifHash) Sum(b []byte) []byte {
	if d := VerifHook(h.data); d != nil {
		return append(b, d...)
	}
	return h.Hash.Sum(b)
}
`
	f := filepath.Join(scratch, "sha256.go")
	if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
		fatalf("%v", err)
	}
	repl[orig] = f
	buildTags = "verifsha"
}

func writeEvidence(prop, tier string, s *Session, p *Prog, results []*HarnessResult, nviol, validated int, mism, spurious []string, t0 time.Time, loadTime time.Duration) {
	var fns []string
	p.funcs.Range(func(k, v any) bool {
		c := v.(*CFunc)
		if c.inRepo && c.hit.Load() > 0 {
			fns = append(fns, strings.Replace(c.name, "github.com/tendermint/go-amino", "amino", 1))
		}
		return true
	})
	sort.Strings(fns)
	var paths, dec, steps, asserts, proved int64
	hs := []map[string]any{}
	var samples []string
	bounds := map[string]bool{}
	assum := []string{}
	for _, r := range results {
		paths += r.Paths
		dec += r.Decisions
		steps += r.Steps
		asserts += r.Asserts
		proved += r.Proved
		h := map[string]any{"harness": r.Name, "paths": r.Paths, "by_status": r.ByStatus, "branch_decisions": r.Decisions, "instructions": r.Steps,
			"assertions_reached": r.Asserts, "assertions_discharged_by_solver": r.Proved, "max_decision_depth": r.MaxDepth, "complete_within_bounds": r.Complete && inconclusive(r) == 0, "wall_s": r.Wall.Seconds()}
		if len(r.Why) > 0 {
			h["reduced_bound"] = r.Why
		}
		if len(r.Covers) > 0 {
			h["reachability_witnesses"] = sortedKeys(r.Covers)
		}
		hs = append(hs, h)
		for b := range r.Bounds {
			bounds[b] = true
		}
		for i, t := range r.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, fmt.Sprintf("%s: %s -> %s", t.Harness, compactInputs(t.Inputs), strings.Join(t.Obs, " ")))
			}
		}
	}
	cov := map[string]any{
		"states":                         paths,
		"transitions":                    dec,
		"traces_validated_against_impl":  validated,
		"samples":                        samples,
		"states_meaning":                 "symbolic paths through the real code; each stands for every input satisfying its path condition",
		"transitions_meaning":            "branch, size and choice decisions taken on those paths",
		"functions_encoded":              fns,
		"instructions_executed":          steps,
		"assertions_reached":             asserts,
		"assertions_discharged_by_unsat": proved,
		"queries":                        s.queries.Load(),
		"queries_sat":                    s.sat.Load(),
		"queries_unsat":                  s.unsat.Load(),
		"queries_unknown":                s.unknown.Load(),
		"queries_answered_from_cache":    s.cacheHits.Load(),
		"solver":                         solverBin,
		"solver_time_s":                  float64(s.solverNanos.Load()) / 1e9,
		"cross_checked_with_cvc5":        s.crossDone.Load(),
		"cross_check_disagreements":      s.crossBad.Load(),
		"load_time_s":                    loadTime.Seconds(),
		"harnesses":                      hs,
		"bounds":                         sortedKeys(bounds),
	}
	if len(mism) > 0 {
		cov["engine_native_mismatches"] = mism
	}
	if len(spurious) > 0 {
		cov["counterexamples_not_reproduced"] = spurious
	}
	assum = append(assum,
		"amd64; Go semantics as encoded by the engine's SSA interpreter; reflect, sync, fmt, math/bits and encoding/json are modelled (sampled paths are replayed against the real build)",
		"inputs outside the listed bounds are not covered")
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assum, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fOut, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}
