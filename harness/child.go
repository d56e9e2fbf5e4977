package harness

// The child process: reads scenarios, runs each against the code under test
// (in a synctest bubble unless the property needs the real clock), and writes
// the verdicts. Crashes of the code under test kill the child, which is how
// the parent learns of them.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru/teolog"
)

// Request is one line to the child
type Request struct {
	Prop     string          `json:"prop"`
	Scenario json.RawMessage `json:"scenario"`
	Real     bool            `json:"real,omitempty"` // force the real clock
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

var quietLog = teolog.New()

// ChildMain serves requests until the input ends
func ChildMain(t *testing.T) {
	useKeyPool()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.NewFile(3, "verdicts")
	// The code under test prints to standard output now and then
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	if os.Getenv("VERIF_GCPERCENT") != "" {
		debug.SetGCPercent(400)
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req Request
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS: bad request:", err)
			os.Exit(70)
		}
		res := runOne(t, req)
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		if strings.HasPrefix(res.Kind, "hang") || res.Kind == "runaway" || strings.HasPrefix(res.Error, "stuck") {
			os.Exit(3)
		}
	}
}

// set where the build has a pool of keys
var makeKeyPool, useKeyPool = func(file string) {}, func() {}

var bubbleLine = regexp.MustCompile(`(?m)^goroutine (\d+) \[([^\]]*)\]:$`)

// bubbleState tells whether all goroutines of a bubble are blocked, and a
// fingerprint of the stacks
func bubbleState(onlyBubble bool) (allBlocked, onMutex bool, fp string) {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	allBlocked = true
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := bubbleLine.FindStringSubmatch(strings.SplitN(g, "\n", 2)[0])
		if m == nil {
			continue
		}
		st := m[2]
		if onlyBubble && !strings.Contains(st, "synctest bubble") {
			continue
		}
		if !onlyBubble && !strings.Contains(g, "teonet-go/tru") {
			continue
		}
		state := strings.Split(strings.Split(st, ",")[0], " (")[0]
		switch state {
		case "running", "runnable", "syscall":
			allBlocked = false
		}
		if strings.Contains(state, "Mutex") {
			onMutex = true
			fp += m[1] + ":" + state + "\n" + stackFuncs(g) + "\n"
		}
	}
	return
}

func stackFuncs(g string) string {
	var l []string
	for _, s := range strings.Split(g, "\n")[1:] {
		if !strings.HasPrefix(s, "\t") {
			if i := strings.LastIndex(s, "("); i > 0 {
				s = s[:i]
			}
			l = append(l, s)
		}
	}
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, " < ")
}

func runOne(t *testing.T, req Request) Result {
	spec := specs[req.Prop]
	if spec == nil {
		return Result{Error: "unknown property " + req.Prop}
	}
	e := &Env{spec: spec, classes: map[string]bool{}}
	e.InReal = spec.Real || req.Real
	done := make(chan Result, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- panicResult(e, r, debug.Stack())
			}
		}()
		body := func() {
			defer func() {
				if r := recover(); r != nil {
					pr := panicResult(e, r, debug.Stack())
					e.mu.Lock()
					if e.res.Kind == "" {
						e.res.Kind, e.res.Detail = pr.Kind, pr.Detail
					}
					if e.res.Error == "" {
						e.res.Error = pr.Error
					}
					e.mu.Unlock()
				}
				func() {
					defer func() {
						if r := recover(); r != nil && !e.Failed() {
							pr := panicResult(e, r, debug.Stack())
							e.mu.Lock()
							e.res.Kind, e.res.Detail, e.res.Error = pr.Kind, pr.Detail, pr.Error
							e.mu.Unlock()
						}
					}()
					e.runCleanup()
				}()
			}()
			spec.Run(e, req.Scenario)
			if os.Getenv("VERIF_DUMP") != "" && e.world != nil {
				fmt.Fprintln(os.Stderr, e.world.dump(20000))
			}
		}
		if e.InReal {
			body()
		} else {
			synctest.Test(t, func(*testing.T) { body() })
		}
		done <- e.result()
	}()

	startCPU, start := cpuSeconds(), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	lastFP, same := "", 0
	for {
		select {
		case r := <-done:
			return r
		case <-tick.C:
		}
		wall := time.Since(start).Seconds()
		if cpu := cpuSeconds() - startCPU; cpu > spec.CPULimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			return Result{Kind: "runaway", Detail: fmt.Sprintf("no end after %.0f CPU seconds\n%s", cpu, short(string(buf), 8000))}
		}
		if wall > 4 {
			blocked, onMutex, fp := bubbleState(!e.InReal)
			if fp == lastFP && onMutex && (blocked || e.InReal) {
				same++
			} else {
				same = 0
			}
			lastFP = fp
			need := 8
			if e.InReal {
				need = 60 // the same goroutines stuck on the same locks for 30 s
			}
			if same >= need {
				return Result{Kind: "hang-deadlock", Detail: "goroutines blocked on locks for good:\n" + short(fp, 6000)}
			}
		}
		if wall > spec.WallLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			return Result{Error: fmt.Sprintf("stuck: no verdict after %.0f s\n%s", wall, short(string(buf), 8000))}
		}
	}
}

// panicResult classifies a panic which reached the harness
func panicResult(e *Env, r any, stack []byte) Result {
	res := e.result()
	msg := fmt.Sprint(r)
	if hb, ok := r.(harnessBug); ok {
		res.Error = "harness: " + string(hb)
		return res
	}
	if strings.Contains(msg, "deadlock: ") {
		// The bubble ended with goroutines left, or everything blocked for good
		if strings.Contains(msg, "main bubble goroutine has exited") {
			if res.Kind == "" && wantLeak[e.spec.ID] {
				res.Kind, res.Detail = "goroutine-leak", msg+"\n"+leakedStacks()
			}
			return res
		}
		if res.Kind == "" {
			res.Kind, res.Detail = "hang-blocked", msg+"\n"+leakedStacks()
		}
		return res
	}
	if panicInTru(string(stack)) {
		if res.Kind == "" {
			res.Kind, res.Detail = "panic", msg+"\n"+short(string(stack), 6000)
		}
		return res
	}
	res.Error = "harness panic: " + msg + "\n" + short(string(stack), 6000)
	return res
}

func leakedStacks() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var l []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(strings.SplitN(g, "\n", 2)[0], "synctest bubble") {
			l = append(l, strings.SplitN(g, "\n", 2)[0]+" "+stackFuncs(g))
		}
	}
	return short(strings.Join(l, "\n"), 6000)
}

// wantLeak lists the properties which promise that no goroutine is left
var wantLeak = map[string]bool{}

// panicInTru tells whether the first frame below the panic which belongs to
// tru or to the harness belongs to tru
func panicInTru(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "teonet-go/tru") {
			return true
		}
		if strings.Contains(l, "verif/harness") {
			return false
		}
	}
	return false
}
