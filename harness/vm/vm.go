// Package vm is the monitor runtime: it runs the cases of a property in a supervised child process,
// records what the monitors observed, and turns monitor verdicts into the VIOLATION/evidence interface.
package vm

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/consensys/gnark/logger"
)

// Violation is one monitor verdict.
type Violation struct {
	Key    string `json:"key"`    // stable identification of the failing case
	Detail string `json:"detail"` // what was observed against what was expected
	Input  any    `json:"input"`  // the case, complete enough to be rerun
}

// R is the context of one property run, in the child process.
type R struct {
	Property, Tier string
	Seed           int64
	Thorough       bool
	only           string

	mu       sync.Mutex
	evals    int64
	distinct map[[16]byte]bool
	samples  []any
	sampleBy map[string]int
	counts   map[string]int64
	viol     []Violation
	violKeys map[string]int
	activeID int64
	dir      string
}

type result struct {
	Evals      int64            `json:"evals"`
	Distinct   int              `json:"distinct"`
	Samples    []any            `json:"samples"`
	Counts     map[string]int64 `json:"counts"`
	Violations []Violation      `json:"violations"`
	Rule       string           `json:"rule"`
	Done       bool             `json:"done"`
}

// Spec is one property of a monitor binary.
type Spec struct {
	Run  func(*R)
	Rule string
	// Level is exploration or fault_enumeration.
	Level       string
	Exhaustive  bool
	Assumptions []string
	// Env is added to the child's environment.
	Env []string
}

// Rand returns a generator that depends on the seed and the label only.
func (r *R) Rand(label string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%s", r.Property, r.Seed, label)))
	return rand.New(rand.NewSource(new(big.Int).SetBytes(h[:7]).Int64()))
}

// N picks a count by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Eval counts one evaluation. key is the canonical form of a non-trivial case ("" for a trivial one).
func (r *R) Eval(kind, key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.counts[kind]++
	if key != "" {
		h := sha256.Sum256([]byte(kind + "\x00" + key))
		var k [16]byte
		copy(k[:], h[:])
		r.distinct[k] = true
	}
}

// Count adds to a measured counter of the evidence.
func (r *R) Count(name string, n int64) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// Sample keeps up to two actual cases per kind.
func (r *R) Sample(kind string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleBy[kind] < 2 && len(r.samples) < 24 {
		r.sampleBy[kind]++
		r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
	}
}

// Violate records a violation. At most three are kept per key.
func (r *R) Violate(key string, input any, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violKeys[key]++
	if r.violKeys[key] > 3 || len(r.viol) > 200 {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	r.viol = append(r.viol, Violation{Key: key, Detail: d, Input: input})
}

// Expect is Violate when !ok.
func (r *R) Expect(ok bool, key string, input any, format string, args ...any) bool {
	if !ok {
		r.Violate(key, input, format, args...)
	}
	return ok
}

// Case runs f; a panic in it is a violation with the case's key. The case is noted on disk while it
// runs, so that a crash or exit of the whole process can be attributed to it.
func (r *R) Case(key string, input any, f func()) {
	if r.only != "" && !strings.HasPrefix(key, r.only) {
		return
	}
	id := atomic.AddInt64(&r.activeID, 1)
	path := filepath.Join(r.dir, fmt.Sprintf("active-%d", id))
	b, _ := json.Marshal(map[string]any{"key": key, "input": input})
	_ = os.WriteFile(path, b, 0o600)
	defer os.Remove(path)
	defer func() {
		if p := recover(); p != nil {
			r.Violate(key, input, "panic: %v\n%s", p, debug.Stack())
		}
	}()
	f()
}

// Par runs f(0..n-1) on w workers (0: all cores).
func Par(n, w int, f func(i int)) {
	if w <= 0 {
		w = runtime.NumCPU()
	}
	if w > n {
		w = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Try runs f and returns its panic value as an error text ("" when there was none).
func Try(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v", p)
		}
	}()
	f()
	return ""
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

// --- supervision -----------------------------------------------------------------------------------

type known struct {
	property, key, text string
}

func loadKnown(root string) (out []known) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

// Main is the entry point of every monitor binary.
func Main(specs map[string]Spec) {
	logger.Disable()
	prop := flag.String("property", "", "property id")
	child := flag.String("child", "", "internal: directory of the supervised child")
	only := flag.String("only", "", "run only the cases whose key starts with this")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	root := flag.String("root", "/verif", "verif directory")
	limit := flag.Duration("limit", 14*time.Minute, "time limit of the child")
	flag.Parse()
	spec, ok := specs[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seed)
	}
	r := &R{Property: *prop, Tier: *tier, Seed: seed, Thorough: *tier == "thorough", only: *only,
		distinct: map[[16]byte]bool{}, sampleBy: map[string]int{}, counts: map[string]int64{},
		violKeys: map[string]int{}, dir: *child}
	if *child != "" {
		spec.Run(r)
		res := result{Evals: r.evals, Distinct: len(r.distinct), Samples: r.samples, Counts: r.counts, Violations: r.viol, Done: true}
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, "result:", err)
			os.Exit(4)
		}
		if err := os.WriteFile(filepath.Join(*child, "result.json"), b, 0o600); err != nil {
			os.Exit(4)
		}
		os.Exit(0)
	}
	os.Exit(supervise(spec, r, *root, *limit))
}

func supervise(spec Spec, r *R, root string, limit time.Duration) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vmon-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	args := []string{"-property", r.Property, "-tier", r.Tier, "-child", dir}
	if r.only != "" {
		args = append(args, "-only", r.only)
	}
	cmd := exec.Command(os.Args[0], args...)
	errf, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return 2
	}
	defer errf.Close()
	cmd.Stdout = nil // the code under test prints a lot
	cmd.Stderr = &capWriter{w: errf, left: 64 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	cmd.Env = append(cmd.Env, "TMPDIR="+dir, "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, spec.Env...)
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(5 * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			err = <-done
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)

	var res result
	if b, e := os.ReadFile(filepath.Join(dir, "result.json")); e == nil {
		_ = json.Unmarshal(b, &res)
	}
	stderr := tail(filepath.Join(dir, "stderr"), 8000)
	if !res.Done {
		if timedOut {
			fmt.Fprintf(os.Stderr, "no answer: the child did not finish within %v\n%s\n%s\n", limit, activeCases(dir), stderr)
			return 2
		}
		if ee, ok := err.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				fmt.Fprintln(os.Stderr, "no answer: the child was killed (memory?)", stderr)
				return 2
			}
			if ee.ExitCode() == 4 {
				fmt.Fprintln(os.Stderr, "no answer: internal error", stderr)
				return 2
			}
		}
		res.Violations = append(res.Violations, Violation{Key: "process-death",
			Detail: fmt.Sprintf("the process running the code under test ended (%v) instead of returning\n%s", err, stderr),
			Input:  json.RawMessage(activeJSON(dir))})
	}
	if races := raceReports(dir); len(races) > 0 {
		for i, t := range races {
			if i >= 5 {
				break
			}
			res.Violations = append(res.Violations, Violation{Key: "data-race", Detail: t, Input: nil})
		}
		if res.Counts == nil {
			res.Counts = map[string]int64{}
		}
		res.Counts["race_reports"] = int64(len(races))
	}

	// known findings
	kn := loadKnown(root)
	fresh := res.Violations[:0:0]
	printed := map[string]bool{}
	for _, v := range res.Violations {
		matched := false
		for _, k := range kn {
			if k.property == r.Property && k.key == v.Key {
				matched = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k.text)
				}
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Key < fresh[j].Key })

	level := spec.Level
	if level == "" {
		level = "exploration"
	}
	if len(res.Samples) == 0 {
		res.Samples = []any{"none"}
	}
	cov := map[string]any{"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": spec.Rule,
		"samples": res.Samples, "observed": res.Counts}
	if spec.Exhaustive {
		cov["exhaustive"] = true
	}
	ev := map[string]any{"property": r.Property, "tier": r.Tier, "seed": r.Seed, "level": level, "coverage": cov,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(fresh)}
	if len(spec.Assumptions) > 0 {
		ev["assumptions"] = spec.Assumptions
	}
	if r.only == "" {
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(root, "evidence", r.Property+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(fresh) == 0 {
		if res.Evals == 0 && r.only == "" {
			fmt.Fprintln(os.Stderr, "no answer: nothing was evaluated")
			return 2
		}
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", r.Property, r.Tier, r.Seed, res.Evals, res.Distinct, time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(root, "replays", r.Property+".json")
	_ = os.MkdirAll(filepath.Dir(rp), 0o755)
	rb, _ := json.MarshalIndent(map[string]any{"property": r.Property, "tier": r.Tier, "seed": r.Seed,
		"rerun":      fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s -only '%s'", r.Seed, r.Tier, root, r.Property, fresh[0].Key),
		"violations": fresh}, "", " ")
	_ = os.WriteFile(rp, append(rb, '\n'), 0o644)
	for i, v := range fresh {
		if i >= 8 {
			fmt.Printf("... %d more\n", len(fresh)-i)
			break
		}
		d := v.Detail
		if len(d) > 300 {
			d = strings.ReplaceAll(d[:300], "\n", " | ") + "..."
		}
		fmt.Printf("violated: %s: %s\n", v.Key, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, rp)
	return 1
}

type capWriter struct {
	w    io.Writer
	left int
}

func (c *capWriter) Write(b []byte) (int, error) {
	if c.left > 0 {
		n := len(b)
		if n > c.left {
			n = c.left
		}
		_, _ = c.w.Write(b[:n])
		c.left -= n
	}
	return len(b), nil
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if i := bytes.Index(b, []byte("panic")); i > 0 && len(b)-i > n {
		b = b[i : i+n]
	} else if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func activeJSON(dir string) string {
	m, _ := filepath.Glob(filepath.Join(dir, "active-*"))
	var parts []string
	for _, f := range m {
		if b, err := os.ReadFile(f); err == nil && json.Valid(b) {
			parts = append(parts, string(b))
		}
	}
	return "[" + strings.Join(parts, ",") + "]"
}

func activeCases(dir string) string {
	s := activeJSON(dir)
	if len(s) > 2000 {
		s = s[:2000]
	}
	return "cases running: " + s
}

func raceReports(dir string) (out []string) {
	m, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range m {
		b, _ := os.ReadFile(f)
		for _, t := range strings.Split(string(b), "==================") {
			if strings.Contains(t, "DATA RACE") {
				out = append(out, strings.TrimSpace(t))
			}
		}
	}
	return out
}
