// Package fw is the check framework: deterministic case lists, worker
// processes, evidence, replay files and known findings.
package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ctx collects what one case did.
type Ctx struct {
	Tier       string
	Case       string
	Counters   map[string]int64
	Violations []Violation
	Detail     any // stored in the replay file
	Verbose    bool
	SampleV    any // written out in the evidence for a few cases
}
type Violation struct {
	Sig string // stable short signature
	Msg string
}

func (c *Ctx) Count(k string, n int) { c.Counters[k] += int64(n) }
func (c *Ctx) Sample(v any)          { c.SampleV = v }
func (c *Ctx) Fail(sig, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if len(m) > 6000 {
		m = m[:6000] + "..."
	}
	c.Violations = append(c.Violations, Violation{sig, m})
}

type Case struct {
	Name    string
	Run     func(*Ctx)
	Timeout time.Duration
}

type Check struct {
	ID        string
	Cases     func(tier string) []Case
	Technique string
	Level     string // model_checking or exploration
	Rule      string
	Assume    []string
	Bounds    func(tier string) string
	Workers   int
}

var Registry = map[string]*Check{}

func Register(c *Check) { Registry[c.ID] = c }

type result struct {
	Index      int              `json:"i"`
	Name       string           `json:"n"`
	Counters   map[string]int64 `json:"c"`
	Violations []Violation      `json:"v"`
	Detail     json.RawMessage  `json:"d,omitempty"`
	Ms         int64            `json:"ms"`
	Sample     json.RawMessage  `json:"s,omitempty"`
}

func RunCase(c Case, tier string, verbose bool) (ctx *Ctx) {
	ctx = &Ctx{Tier: tier, Case: c.Name, Counters: map[string]int64{}, Verbose: verbose}
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			ctx.Fail("panic", "panic: %v\n%s", x, trim(st, 2500))
		}
	}()
	c.Run(ctx)
	return
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Worker runs the cases whose indexes arrive on stdin.
func Worker(id, tier string) {
	out := os.NewFile(3, "results")
	dn, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = dn
	os.Stderr = dn
	cases := Registry[id].Cases(tier)
	in := bufio.NewScanner(os.Stdin)
	w := bufio.NewWriter(out)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil {
			return
		}
		t := time.Now()
		ctx := RunCase(cases[i], tier, false)
		r := result{Index: i, Name: cases[i].Name, Counters: ctx.Counters, Violations: ctx.Violations, Ms: time.Since(t).Milliseconds()}
		if len(ctx.Violations) > 0 && ctx.Detail != nil {
			r.Detail, _ = json.Marshal(ctx.Detail)
		}
		if ctx.SampleV != nil {
			r.Sample, _ = json.Marshal(ctx.SampleV)
		}
		b, err := json.Marshal(r)
		if err != nil {
			b, _ = json.Marshal(result{Index: i, Name: cases[i].Name, Violations: []Violation{{"internal", err.Error()}}})
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

type worker struct {
	cmd   *exec.Cmd
	in    *os.File
	out   *bufio.Reader
	outF  *os.File
	err   string
	done  int
	lines chan []byte
}

func startWorker(id, tier, errFile string) (*worker, error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", id, tier)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOMAXPROCS=2", "GOTRACEBACK=all")
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	ef, _ := os.Create(errFile)
	cmd.Stdin = ir
	cmd.Stdout = nil
	cmd.Stderr = ef
	cmd.ExtraFiles = []*os.File{ow}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	ef.Close()
	w := &worker{cmd: cmd, in: iw, outF: or, err: errFile, lines: make(chan []byte, 1)}
	go func() {
		rd := bufio.NewReaderSize(or, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if err != nil {
				close(w.lines)
				return
			}
			w.lines <- l
		}
	}()
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.outF.Close()
}

type Finding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type findings struct {
	Known []Finding `json:"known"`
	Fixed []string  `json:"fixed"`
}

func loadFindings(dir string) findings {
	var f findings
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	return f
}

// Supervise runs all cases of a check and writes evidence. Returns exit code.
func Supervise(dir, id, tier string, filter string, budget time.Duration) int {
	ck := Registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	start := time.Now()
	cases := ck.Cases(tier)
	seen := map[string]bool{}
	var idx []int
	for i, c := range cases {
		if seen[c.Name] {
			fmt.Fprintln(os.Stderr, "duplicate case name", c.Name)
			return 2
		}
		seen[c.Name] = true
		if filter == "" || strings.Contains(c.Name, filter) {
			idx = append(idx, i)
		}
	}
	nw := runtime.NumCPU()
	if ck.Workers > 0 && ck.Workers < nw {
		nw = ck.Workers
	}
	if nw > len(idx) {
		nw = len(idx)
	}
	tmp, _ := os.MkdirTemp("", "vfz")
	defer os.RemoveAll(tmp)
	jobs := make(chan int, len(idx))
	for _, i := range idx {
		jobs <- i
	}
	close(jobs)
	var mu sync.Mutex
	var results []result
	deadline := start.Add(budget)
	skipped := 0
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			ef := filepath.Join(tmp, fmt.Sprintf("w%d.err", k))
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for i := range jobs {
				if time.Now().After(deadline) {
					mu.Lock()
					skipped++
					mu.Unlock()
					continue
				}
				to := cases[i].Timeout
				if to == 0 {
					to = 40 * time.Second
				}
				var r result
				for attempt := 0; attempt < 2; attempt++ {
					if w == nil {
						var err error
						if w, err = startWorker(id, tier, ef); err != nil {
							r = result{Index: i, Name: cases[i].Name, Violations: []Violation{{"internal", err.Error()}}}
							break
						}
					}
					fmt.Fprintf(w.in, "%d\n", i)
					var line []byte
					ok, timedOut := false, false
					select {
					case line, ok = <-w.lines:
					case <-time.After(to):
						timedOut = true
					}
					if ok {
						if err := json.Unmarshal(line, &r); err != nil {
							r = result{Index: i, Name: cases[i].Name, Violations: []Violation{{"internal", err.Error()}}}
						}
						w.done++
						break
					}
					w.stop()
					w = nil
					eb, _ := os.ReadFile(ef)
					if timedOut {
						r = result{Index: i, Name: cases[i].Name, Ms: to.Milliseconds(), Violations: []Violation{{"hang", fmt.Sprintf("the run did not finish within %s", to)}}}
					} else {
						r = result{Index: i, Name: cases[i].Name, Violations: []Violation{{"died", "the run ended the process: " + trim(string(eb), 3000)}}}
					}
				}
				mu.Lock()
				results = append(results, r)
				mu.Unlock()
				if w != nil && w.done >= 400 { // the checker caches every specification it has seen
					w.stop()
					w = nil
				}
			}
		}(k)
	}
	wg.Wait()
	sort.Slice(results, func(a, b int) bool { return results[a].Index < results[b].Index })
	kf := loadFindings(dir)
	counters := map[string]int64{}
	rc := 0
	var slow []string
	shown := 0
	knownSeen := map[Finding]bool{}
	nviol := 0
	samples := []any{}
	os.MkdirAll(filepath.Join(dir, "build"), 0o755)
	vf, _ := os.Create(filepath.Join(dir, "build", "violations-"+id+".txt"))
	defer vf.Close()
	for n, r := range results {
		if len(r.Sample) > 0 && len(samples) < 6 && (len(samples) == 0 || n%(len(results)/6+1) == 0) {
			samples = append(samples, map[string]any{"case": r.Name, "sample": r.Sample})
		}
		for k, v := range r.Counters {
			counters[k] += v
		}
		if r.Ms > 20000 {
			slow = append(slow, fmt.Sprintf("%s %dms", r.Name, r.Ms))
		}
		for _, v := range r.Violations {
			known := false
			for _, f := range kf.Known {
				if f.Property == id && f.Case == r.Name && f.Sig == v.Sig {
					known = true
					if !knownSeen[f] {
						knownSeen[f] = true
						fmt.Printf("KNOWN-FINDING: property=%s case %s: %s\n", id, r.Name, f.What)
					}
				}
			}
			if known {
				continue
			}
			rc = 1
			nviol++
			fmt.Fprintf(vf, "%s\t%s\t%s\n", r.Name, v.Sig, trim(strings.SplitN(v.Msg, "\n", 2)[0], 400))
			if shown < 15 {
				shown++
				rp := writeReplay(dir, id, tier, r, v)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
				fmt.Printf("  case %s [%s]: %s\n", r.Name, v.Sig, trim(v.Msg, 1500))
			}
		}
	}
	counters["cases"] = int64(len(results))
	if len(counters) < 2 && rc == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		rc = 2
	}
	writeEvidence(dir, ck, tier, counters, samples, skipped, time.Since(start), nviol, len(knownSeen))
	ks := make([]string, 0)
	for k := range counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s %s: %d cases, %d skipped, %d violations, %.1fs;", id, tier, len(results), skipped, nviol, time.Since(start).Seconds())
	for _, k := range ks {
		fmt.Printf(" %s=%d", k, counters[k])
	}
	fmt.Println()
	for _, s := range slow {
		fmt.Println("  slow:", s)
	}
	return rc
}

func writeReplay(dir, id, tier string, r result, v Violation) string {
	d := filepath.Join(dir, "build", "replay")
	os.MkdirAll(d, 0o755)
	fn := filepath.Join(d, fmt.Sprintf("%s-%d.json", id, r.Index))
	b, _ := json.MarshalIndent(map[string]any{"check": id, "tier": tier, "case": r.Name, "signature": v.Sig, "message": v.Msg, "detail": r.Detail}, "", " ")
	os.WriteFile(fn, b, 0o644)
	return fn
}

// Replay re-runs the case of a replay file against the current tree.
func Replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct{ Check, Tier, Case string }
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return RunOne(r.Check, r.Tier, r.Case)
}

func RunOne(id, tier, name string) int {
	for _, c := range Registry[id].Cases(tier) {
		if c.Name == name {
			ctx := RunCase(c, tier, true)
			for _, v := range ctx.Violations {
				fmt.Printf("VIOLATION property=%s [%s] %s\n", id, v.Sig, v.Msg)
			}
			if ctx.Detail != nil && len(ctx.Violations) > 0 {
				b, _ := json.MarshalIndent(ctx.Detail, "", " ")
				fmt.Println(string(b))
			}
			fmt.Println(ctx.Counters)
			if len(ctx.Violations) > 0 {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no case", name)
	return 2
}

func writeEvidence(dir string, ck *Check, tier string, counters map[string]int64, samples []any, skipped int, d time.Duration, viol, known int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{"samples": samples, "exhaustive": skipped == 0, "cases_skipped_for_time": skipped, "known_findings_seen": known}
	for k, v := range counters {
		cov[k] = v
	}
	bounds := ""
	if ck.Bounds != nil {
		bounds = ck.Bounds(tier)
	}
	level := ck.Level
	if level == "" {
		level = "model_checking"
	}
	if level == "model_checking" {
		cov["states"] = counters["states"]
		cov["transitions"] = counters["transitions"]
		cov["traces_validated_against_impl"] = counters["traces"]
		cov["rule"] = ck.Rule
	} else {
		cov["evaluations"] = counters["evaluations"]
		cov["distinct_nontrivial"] = counters["distinct"]
		cov["rule"] = ck.Rule
	}
	cov["bounds"] = bounds
	as := ck.Assume
	if as == nil {
		as = []string{}
	}
	e := map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": d.Seconds(), "violations": viol, "assumptions": as}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", ck.ID+".json"), append(b, '\n'), 0o644)
}
