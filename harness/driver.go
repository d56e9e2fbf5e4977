package harness

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Child is a running child process
type Child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outF   *os.File
	stderr *tailBuf
}

type tailBuf struct {
	mu  sync.Mutex
	b   []byte
	max int
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// keep the beginning: the panic message comes first
	if room := t.max - len(t.b); room > 0 {
		t.b = append(t.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startChild(spec *Spec) (*Child, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := &Child{cmd: exec.Command(self, "-test.run=^TestChild$", "-test.timeout=0"), stderr: &tailBuf{max: 256 << 10}}
	c.cmd.Env = append(os.Environ(), "VERIF_ROLE=child", "GOTRACEBACK=all")
	if os.Getenv("GOMAXPROCS") == "" {
		c.cmd.Env = append(c.cmd.Env, "GOMAXPROCS="+childProcs)
	}
	if spec.Race {
		c.cmd.Env = append(c.cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
	}
	c.in, err = c.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.cmd.ExtraFiles = []*os.File{w}
	c.cmd.Stderr = c.stderr
	c.cmd.Stdout = nil
	if os.Getenv("VERIF_DUMP") != "" {
		c.cmd.Stderr = os.Stderr
	}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	c.outF = r
	c.out = bufio.NewReaderSize(r, 1<<20)
	return c, nil
}

func (c *Child) stop() {
	c.in.Close()
	c.outF.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

// Runner executes scenarios, restarting its child when that dies
type Runner struct {
	spec  *Spec
	child *Child
}

var childProcs = "2"

func (r *Runner) close() {
	if r.child != nil {
		r.child.stop()
		r.child = nil
	}
}

func (r *Runner) exec(scenario json.RawMessage, real bool) Result {
	for attempt := 0; ; attempt++ {
		if r.child == nil {
			c, err := startChild(r.spec)
			if err != nil {
				return Result{Error: "start child: " + err.Error()}
			}
			r.child = c
		}
		b, _ := json.Marshal(Request{Prop: r.spec.ID, Scenario: scenario, Real: real})
		_, werr := r.child.in.Write(append(b, '\n'))
		var line []byte
		var rerr error
		if werr == nil {
			line, rerr = r.child.out.ReadBytes('\n')
		}
		if werr == nil && rerr == nil {
			var res Result
			if err := json.Unmarshal(line, &res); err != nil {
				r.close()
				return Result{Error: "bad verdict: " + err.Error()}
			}
			if strings.HasPrefix(res.Kind, "hang") || res.Kind == "runaway" || strings.HasPrefix(res.Error, "stuck") {
				r.close()
			}
			return res
		}
		// The child died
		c := r.child
		r.child = nil
		c.in.Close()
		c.outF.Close()
		werr = c.cmd.Wait()
		if attempt == 0 && c.cmd.ProcessState != nil && c.cmd.ProcessState.ExitCode() == 0 {
			continue // it had ended before
		}
		return crashResult(c, werr)
	}
}

func crashResult(c *Child, werr error) Result {
	msg := c.stderr.String()
	st := ""
	if c.cmd.ProcessState != nil {
		st = c.cmd.ProcessState.String()
	}
	if strings.Contains(msg, "WARNING: DATA RACE") {
		return raceResult(msg)
	}
	crash := strings.Contains(msg, "panic: ") || strings.Contains(msg, "fatal error: ")
	if !crash || strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate memory") ||
		strings.Contains(msg, "HARNESS:") || strings.Contains(msg, "failed to create new OS thread") {
		return Result{Error: "child died: " + st + "\n" + short(msg, 4000)}
	}
	if !crashInTru(msg) {
		return Result{Error: "child crashed outside tru: " + st + "\n" + short(msg, 6000)}
	}
	return Result{Kind: "crash", Detail: st + "\n" + short(msg, 6000)}
}

// crashInTru looks at the goroutine that crashed
func crashInTru(msg string) bool {
	i := strings.Index(msg, "panic: ")
	if j := strings.Index(msg, "fatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return false
	}
	rest := msg[i:]
	j := strings.Index(rest, "\ngoroutine ")
	if j < 0 {
		return false
	}
	g := rest[j+1:]
	if k := strings.Index(g, "\n\n"); k > 0 {
		g = g[:k]
	}
	return panicInTru("\n" + g)
}

// ---- generator process ----

// GenReport is what a generator process found
type GenReport struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  map[string]bool   `json:"nontrivial"` // hashes
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Known       map[string]int    `json:"known"`
	Skipped     int               `json:"skipped"`
	Fail        *Failure          `json:"fail,omitempty"`
	Errors      []string          `json:"errors,omitempty"`
	Flaky       int               `json:"flaky"`
}

// Failure is a violation with its scenario
type Failure struct {
	Scenario json.RawMessage `json:"scenario"`
	Result   Result          `json:"result"`
	Repro    string          `json:"reproduced"`
}

type genTB struct {
	failed bool
	logs   []string
}

type genAbort struct{}

func (t *genTB) Helper()                   {}
func (t *genTB) Name() string              { return "gen" }
func (t *genTB) Logf(f string, a ...any)   { t.log(fmt.Sprintf(f, a...)) }
func (t *genTB) Log(a ...any)              { t.log(fmt.Sprintln(a...)) }
func (t *genTB) Skipf(f string, a ...any)  { panic(genAbort{}) }
func (t *genTB) Skip(a ...any)             { panic(genAbort{}) }
func (t *genTB) SkipNow()                  { panic(genAbort{}) }
func (t *genTB) Errorf(f string, a ...any) { t.failed = true; t.log(fmt.Sprintf(f, a...)) }
func (t *genTB) Error(a ...any)            { t.failed = true; t.log(fmt.Sprintln(a...)) }
func (t *genTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(genAbort{}) }
func (t *genTB) Fatal(a ...any)            { t.Error(a...); panic(genAbort{}) }
func (t *genTB) FailNow()                  { t.failed = true; panic(genAbort{}) }
func (t *genTB) Fail()                     { t.failed = true }
func (t *genTB) Failed() bool              { return t.failed }
func (t *genTB) log(s string)              { t.logs = append(t.logs, short(s, 500)) }

// GenMain runs one generator process
func GenMain() {
	spec := specs[os.Getenv("VERIF_PROP")]
	tier := Tier(os.Getenv("VERIF_TIER"))
	worker, _ := strconv.Atoi(os.Getenv("VERIF_WORKER"))
	cases, _ := strconv.Atoi(os.Getenv("VERIF_CASES"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET_S"), 64)
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", spec.ID, seed, worker)))
	rs := binary.LittleEndian.Uint64(h[:8])
	if rs == 0 {
		rs = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(rs, 10))
	flag.Set("rapid.checks", strconv.Itoa(cases))
	flag.Set("rapid.nofailfile", "true")
	shrink := "20s"
	if tier == Thorough {
		shrink = "60s"
	}
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		shrink = s
	}
	flag.Set("rapid.shrinktime", shrink)

	rep := &GenReport{NonTrivial: map[string]bool{}, Classes: map[string]int{}, Known: map[string]int{}}
	r := &Runner{spec: spec}
	var fails []Failure
	var failT time.Time // of the first failure
	patience := 30 * time.Second
	if tier == Thorough {
		patience = 100 * time.Second
	}
	tb := &genTB{}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(genAbort); !ok {
					panic(x)
				}
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			s := spec.Draw(rt, tier)
			raw, err := json.Marshal(s)
			if err != nil {
				panic(err)
			}
			if len(fails) == 0 && time.Now().After(deadline) {
				rep.Skipped++
				return
			}
			if len(rep.Errors) > 3 || len(fails) > 0 && time.Since(failT) > patience {
				return
			}
			res := r.run(raw)
			if len(fails) == 0 {
				rep.Evaluations++
				if res.NonTrivial {
					hh := sha256.Sum256(raw)
					rep.NonTrivial[hex.EncodeToString(hh[:8])] = true
				}
				for _, c := range res.Classes {
					rep.Classes[c]++
				}
				for _, k := range res.Known {
					rep.Known[k]++
				}
				if len(rep.Samples) < 2 && res.NonTrivial && len(raw) < 4000 {
					rep.Samples = append(rep.Samples, raw)
				}
			}
			if res.Error != "" {
				rep.Errors = append(rep.Errors, res.Error+"\nscenario: "+short(string(raw), 3000))
				return
			}
			if res.Kind != "" {
				if os.Getenv("VERIF_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "FAIL worker %d %s: %s\n", worker, res.Kind, short(res.Detail, 1500))
				}
				fails = append(fails, Failure{Scenario: raw, Result: res})
				if len(fails) == 1 {
					failT = time.Now()
					if f := os.Getenv("VERIF_FAILFILE"); f != "" {
						b, _ := json.Marshal(fails[0])
						os.WriteFile(f+".new", b, 0o644)
						os.Rename(f+".new", f)
					}
				}
				rt.Fatalf("%s", res.Kind)
			}
		})
	}()
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Scenario) < len(fails[j].Scenario) })
		best := fails[0]
		best.Repro = "no"
		tried := 0
		for i := 0; i < len(fails) && tried < 12 && time.Since(failT) < 2*patience; i++ {
			tried++
			if res := r.run(fails[i].Scenario); res.Kind != "" {
				best = fails[i]
				best.Result = res
				best.Repro = "yes"
				break
			}
			if i > 4 {
				i = len(fails) - 2 // the biggest, first seen, one
				if i < 5 {
					break
				}
			}
		}
		rep.Fail = &best
	}
	r.close()
	out := os.NewFile(3, "report")
	b, _ := json.Marshal(rep)
	out.Write(b)
	out.Close()
}

// run executes a scenario, confirming apparent deadlocks of the simulated
// clock on the real one
func (r *Runner) run(raw json.RawMessage) Result {
	res := r.exec(raw, false)
	if res.Kind == "hang-deadlock" && !r.spec.Real {
		// A lock held across a sleep stops the simulated clock but is no
		// deadlock: the real clock decides.
		r2 := r.exec(raw, true)
		if !strings.HasPrefix(r2.Kind, "hang") {
			return Result{Skipped: true, Classes: []string{"simulated clock stalled, not judged"}}
		}
		res.Detail = "confirmed on the real clock\n" + res.Detail
	}
	return res
}

// ---- driver ----

// DriverMain is the check: it runs the fixed scenarios and the generator
// processes of one property, and writes the evidence.
func DriverMain() int {
	start := time.Now()
	id := os.Getenv("VERIF_PROP")
	spec := specs[id]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	dir := os.Getenv("VERIF_DIR")
	tier := Tier(os.Getenv("VERIF_TIER"))
	if tier != Thorough {
		tier = Quick
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if self, err := os.Executable(); err == nil && os.Getenv("VERIF_KEYS") == "" {
		makeKeyPool(filepath.Join(filepath.Dir(self), "keys.pem"))
	}
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		return replay(spec, rp)
	}
	known := loadKnown(filepath.Join(dir, "known_findings.jsonl"), id)

	rep := &GenReport{NonTrivial: map[string]bool{}, Classes: map[string]int{}, Known: map[string]int{}}
	var fail *Failure
	// fixed scenarios
	fixed := 0
	if spec.Fixed != nil {
		var list []json.RawMessage
		for _, s := range spec.Fixed(tier) {
			raw, err := json.Marshal(s)
			if err != nil {
				panic(err)
			}
			list = append(list, raw)
		}
		fixed = len(list)
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan json.RawMessage)
		for w := 0; w < min(8, len(list)); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := &Runner{spec: spec}
				defer r.close()
				for raw := range ch {
					res := r.run(raw)
					mu.Lock()
					rep.add(raw, res)
					if res.Kind != "" && fail == nil {
						fail = &Failure{Scenario: raw, Result: res, Repro: "yes"}
					}
					mu.Unlock()
				}
			}()
		}
		for _, raw := range list {
			ch <- raw
		}
		close(ch)
		wg.Wait()
	}

	if fail == nil && spec.Draw != nil {
		workers := spec.Workers
		if workers == 0 {
			workers = runtime.NumCPU()
			if workers > 8 {
				workers = 8
			}
			if workers < 4 {
				workers = 4
			}
			workers = 8 // a fixed number: the cases are a function of the seed
		}
		total := spec.Cases[tier]
		if s := os.Getenv("VERIF_CASES_TOTAL"); s != "" {
			total, _ = strconv.Atoi(s)
		}
		per := (total + workers - 1) / workers
		budget := 420.0
		if tier == Thorough {
			budget = 2400
		}
		type wr struct {
			rep *GenReport
			err string
		}
		res := make(chan wr, workers)
		var cmds []*exec.Cmd
		failFile := func(w int) string { return fmt.Sprintf("%s.fail%d", os.Args[0], w) }
		for w := 0; w < workers; w++ {
			self, _ := os.Executable()
			cmd := exec.Command(self, "-test.run=^$")
			cmd.Env = append(os.Environ(), "VERIF_ROLE=gen", "VERIF_PROP="+id, "VERIF_TIER="+string(tier),
				"VERIF_SEED="+strconv.FormatInt(seed, 10), "VERIF_WORKER="+strconv.Itoa(w),
				"VERIF_CASES="+strconv.Itoa(per), "VERIF_BUDGET_S="+fmt.Sprint(budget), "VERIF_FAILFILE="+failFile(w))
			pr, pw, err := os.Pipe()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			cmd.ExtraFiles = []*os.File{pw}
			var eb bytes.Buffer
			cmd.Stderr = &eb
			if os.Getenv("VERIF_VERBOSE") != "" {
				cmd.Stderr = os.Stderr
			}
			if err := cmd.Start(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			pw.Close()
			cmds = append(cmds, cmd)
			go func() {
				b, _ := io.ReadAll(pr)
				pr.Close()
				err := cmd.Wait()
				var g GenReport
				if json.Unmarshal(b, &g) != nil {
					res <- wr{nil, fmt.Sprintf("generator died: %v\n%s", err, short(eb.String(), 4000))}
					return
				}
				res <- wr{&g, ""}
			}()
		}
		// a failure which nobody could shrink or confirm in time counts as it is
		overdue := time.NewTicker(time.Second)
		defer overdue.Stop()
		var failedAt time.Time
		var early *Failure
		for w := 0; w < workers; {
			var x wr
			select {
			case x = <-res:
				w++
			case <-overdue.C:
				for i := 0; i < workers && early == nil; i++ {
					var f Failure
					if b, err := os.ReadFile(failFile(i)); err == nil && json.Unmarshal(b, &f) == nil {
						f.Repro = "not tried"
						early, failedAt = &f, time.Now()
					}
				}
				if early == nil || time.Since(failedAt) < time.Duration(budget/3)*time.Second {
					continue
				}
				if fail == nil {
					fail = early
				}
				for _, c := range cmds {
					c.Process.Kill()
				}
				w = workers
				continue
			}
			if x.rep == nil {
				if fail == nil {
					rep.Errors = append(rep.Errors, x.err)
				}
				continue
			}
			rep.merge(x.rep)
			if x.rep.Fail != nil {
				if fail == nil || fail.Repro == "no" && x.rep.Fail.Repro == "yes" {
					fail = x.rep.Fail
				}
				if fail.Repro == "yes" {
					for _, c := range cmds {
						c.Process.Kill()
					}
					w = workers
				}
			}
		}
	}

	code := 0
	// known findings
	for _, k := range known {
		if rep.Known[k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	violations := 0
	if fail != nil {
		violations = 1
		code = 1
		rd := filepath.Join(dir, "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%d.json", id, seed))
		b, _ := json.MarshalIndent(map[string]any{"property": id, "kind": fail.Result.Kind, "detail": fail.Result.Detail,
			"reproduced": fail.Repro, "scenario": fail.Scenario,
			"how": "VERIF_REPLAY=" + path + " ./check.sh " + id}, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("violation: %s: %s\n", fail.Result.Kind, short(fail.Result.Detail, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else if len(rep.Errors) > 0 {
		code = 2
		for i, e := range rep.Errors {
			if i < 2 {
				fmt.Fprintln(os.Stderr, "ERROR:", short(e, 5000))
			}
		}
		fmt.Fprintln(os.Stderr, "ERROR:", len(rep.Errors), "cases could not be decided")
	}
	samples := rep.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": id, "tier": string(tier), "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": rep.Evaluations, "distinct_nontrivial": len(rep.NonTrivial), "rule": spec.Rule,
			"samples": samples, "classes": rep.Classes, "fixed_cases": fixed, "cases_not_run_for_lack_of_time": rep.Skipped,
			"known_findings_hit": rep.Known, "not_judged": rep.Flaky,
		},
		"assumptions": append([]string{"the simulated network stands for UDP over IPv4; the synctest clock stands for time"}, spec.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d fixed), %d distinct non-trivial, %d skipped, %.1f s\n", id, tier, seed,
		rep.Evaluations, fixed, len(rep.NonTrivial), rep.Skipped, time.Since(start).Seconds())
	if os.Getenv("VERIF_CLASSES") != "" {
		var ks []string
		for k := range rep.Classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %6d %s\n", rep.Classes[k], k)
		}
	}
	return code
}

func (rep *GenReport) add(raw json.RawMessage, res Result) {
	rep.Evaluations++
	if res.NonTrivial {
		hh := sha256.Sum256(raw)
		rep.NonTrivial[hex.EncodeToString(hh[:8])] = true
		if len(rep.Samples) < 2 && len(raw) < 4000 {
			rep.Samples = append(rep.Samples, raw)
		}
	}
	if res.Skipped {
		rep.Flaky++
	}
	for _, c := range res.Classes {
		rep.Classes[c]++
	}
	for _, k := range res.Known {
		rep.Known[k]++
	}
	if res.Error != "" {
		rep.Errors = append(rep.Errors, res.Error+"\nscenario: "+short(string(raw), 3000))
	}
}

func (rep *GenReport) merge(g *GenReport) {
	rep.Evaluations += g.Evaluations
	rep.Skipped += g.Skipped
	rep.Flaky += g.Flaky
	for k := range g.NonTrivial {
		rep.NonTrivial[k] = true
	}
	for k, v := range g.Classes {
		rep.Classes[k] += v
	}
	for k, v := range g.Known {
		rep.Known[k] += v
	}
	rep.Samples = append(rep.Samples, g.Samples...)
	rep.Errors = append(rep.Errors, g.Errors...)
}

func replay(spec *Spec, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Scenario json.RawMessage `json:"scenario"`
	}
	if err := json.Unmarshal(b, &f); err != nil || f.Scenario == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	r := &Runner{spec: spec}
	defer r.close()
	n, _ := strconv.Atoi(os.Getenv("VERIF_REPEAT"))
	for i := 0; i < max(n, 1); i++ {
		res := r.run(f.Scenario)
		if res.Error != "" {
			fmt.Fprintln(os.Stderr, "ERROR:", res.Error)
			return 2
		}
		if res.Kind != "" {
			fmt.Printf("violation: %s: %s\n", res.Kind, res.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
			return 1
		}
		fmt.Println("ok", res.NonTrivial, res.Classes, res.Known)
	}
	return 0
}

// KnownFinding is one line of known_findings.jsonl
type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	What     string `json:"what"`
}

func loadKnown(path, prop string) (l []KnownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k KnownFinding
		if strings.HasPrefix(line, "{") && json.Unmarshal([]byte(line), &k) == nil && k.Property == prop && k.Status == "open" {
			l = append(l, k)
		}
	}
	return
}
