package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// Tier of a run
type Tier string

const (
	Quick    Tier = "quick"
	Thorough Tier = "thorough"
)

// Result is the verdict on one scenario
type Result struct {
	Kind       string   `json:"kind,omitempty"`   // short stable name of the violation, empty if none
	Detail     string   `json:"detail,omitempty"` // what was observed
	NonTrivial bool     `json:"nt"`
	Classes    []string `json:"classes,omitempty"` // what the case exercised
	Known      []string `json:"known,omitempty"`   // listed findings which this case hit
	Error      string   `json:"error,omitempty"`   // harness error or inconclusive
	Skipped    bool     `json:"skipped,omitempty"`
}

// Spec is a property check
type jsonRaw = json.RawMessage

// Spec is a property check
type Spec struct {
	ID         string
	Rule       string // how cases are made, what makes one non-trivial
	Real       bool   // runs on the real clock, outside a bubble
	Race       bool   // needs the race detector
	Workers    int    // generator processes (default: number of CPUs)
	Cases      map[Tier]int
	Draw       func(rt *rapid.T, tier Tier) any
	Run        func(e *Env, raw json.RawMessage)
	Fixed      func(tier Tier) []any // scenarios run in every check
	CPULimit   float64               // CPU seconds after which a case counts as runaway
	WallLimit  float64               // seconds after which a real-clock case counts as inconclusive
	Assume     []string
	PrivateEnv func(dir string) []string
}

var specs = map[string]*Spec{}

func register(s *Spec) {
	if s.CPULimit == 0 {
		s.CPULimit = 60
	}
	if s.WallLimit == 0 {
		s.WallLimit = 240
	}
	specs[s.ID] = s
}

// Env collects the verdict of a running scenario
type Env struct {
	mu      sync.Mutex
	spec    *Spec
	res     Result
	classes map[string]bool
	cleanup []func()
	world   *World
	InReal  bool // running on the real clock
}

// Failf records a violation (the first one counts)
func (e *Env) Failf(kind, format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.res.Kind == "" {
		e.res.Kind = kind
		e.res.Detail = fmt.Sprintf(format, a...)
	}
}

// Failed tells whether a violation was recorded
func (e *Env) Failed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.res.Kind != ""
}

// Errorf records a harness problem: the case decides nothing
func (e *Env) Errorf(format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.res.Error == "" {
		e.res.Error = fmt.Sprintf(format, a...)
	}
}

// Known records that the case hit a listed finding; it is a violation if the
// finding is not listed
func (e *Env) Known(id, format string, a ...any) {
	listed := false
	for _, k := range loadKnown(filepath.Join(os.Getenv("VERIF_DIR"), "known_findings.jsonl"), e.spec.ID) {
		listed = listed || k.ID == id
	}
	if !listed {
		e.Failf("finding "+id, format, a...)
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.res.Known = append(e.res.Known, id)
}

// Class labels the case
func (e *Env) Class(format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.classes[fmt.Sprintf(format, a...)] = true
}

// ClassIf labels the case if the condition holds
func (e *Env) ClassIf(cond bool, name string) {
	if cond {
		e.Class("%s", name)
	}
}

// NonTrivial marks the case as non-trivial
func (e *Env) NonTrivial() {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.res.NonTrivial = true
}

// Cleanup registers a function run at the end of the scenario, last first
func (e *Env) Cleanup(f func()) { e.cleanup = append(e.cleanup, f) }

func (e *Env) runCleanup() {
	for i := len(e.cleanup) - 1; i >= 0; i-- {
		e.cleanup[i]()
	}
	e.cleanup = nil
}

func (e *Env) result() Result {
	e.mu.Lock()
	defer e.mu.Unlock()
	r := e.res
	for c := range e.classes {
		r.Classes = append(r.Classes, c)
	}
	sort.Strings(r.Classes)
	return r
}

func decode[T any](raw json.RawMessage) T {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(harnessBug("decode scenario: " + err.Error()))
	}
	return v
}

type harnessBug string

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }
