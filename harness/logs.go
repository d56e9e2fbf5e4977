package harness

// C19: the logger.

import (
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"
	"pgregory.net/rapid"
)

// LogOp is an operation on a logger
type LogOp struct {
	L    int      `json:"l"`
	Op   string   `json:"op"`
	N    int      `json:"n"`
	S    string   `json:"s"`
	List []string `json:"list,omitempty"`
	How  int      `json:"how"`
}

// LogCase is the scenario
type LogCase struct {
	Ops []LogOp `json:"ops"`
}

var logNames = []string{"None", "Error", "User", "Info", "Connect", "Debug", "Debugv", "Debugvv", "Debugvvv"}
var logTags = []string{"", "[erro] ", "[user] ", "[info] ", "[conn] ", "[debu] ", "[debv] ", "[devv] ", "[dvvv] "}

type logModel struct {
	level  int
	filter []string
	flags  int
}

func (m *logModel) shows(level int, line string) bool {
	if level > m.level {
		return false
	}
	if len(m.filter) == 0 {
		return true
	}
	for _, f := range m.filter {
		if strings.Contains(line, f) {
			return true
		}
	}
	return false
}

func runLogs(e *Env, c LogCase) {
	file, err := os.CreateTemp("", "verif-log")
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	os.Remove(file.Name())
	old := os.Stdout
	os.Stdout = file
	defer func() { os.Stdout = old; file.Close() }()
	pos := int64(0)
	output := func() string {
		end, _ := file.Seek(0, io.SeekEnd)
		b := make([]byte, end-pos)
		file.ReadAt(b, pos)
		pos = end
		return string(b)
	}
	defaultFlags := log.LstdFlags | log.Lmsgprefix | log.Lshortfile | log.Lmicroseconds
	loggers := []*teolog.Teolog{teolog.New(), teolog.New()}
	models := []*logModel{{flags: defaultFlags}, {flags: defaultFlags}}
	of := func(l *teolog.Teolog, level int) *log.Logger {
		return []*log.Logger{nil, l.Error, l.User, l.Info, l.Connect, l.Debug, l.Debugv, l.Debugvv, l.Debugvvv}[level]
	}
	shown, hidden, filtered := 0, 0, 0
	for i, op := range c.Ops {
		l, m := loggers[op.L%2], models[op.L%2]
		switch op.Op {
		case "level":
			m.level = op.N % 9
			switch op.How % 4 {
			case 0:
				l.SetLevel(m.level)
			case 1:
				l.SetLevel(teolog.LogLevel(m.level))
			default:
				name := []byte(logNames[m.level])
				for k := range name { // any case
					if op.N>>(k%5)&1 == 1 || op.How%4 == 3 {
						name[k] = strings.ToUpper(string(name[k]))[0]
					} else {
						name[k] = strings.ToLower(string(name[k]))[0]
					}
				}
				pad := []string{"", "", "", " ", "\t", "\n", "\r\n", "  "}
				if m.level == 8 && op.N&96 == 96 {
					name = []byte([]string{"all", "ALL", "All"}[op.N%3])
				}
				l.SetLevel(pad[op.N>>3%8] + string(name) + pad[op.N>>5%8])
			}
		case "unknown":
			m.level = 0
			l.SetLevel(op.S)
		case "names":
			s := l.String()
			if !strings.EqualFold(s, logNames[m.level]) {
				e.Failf("name", "operation %d: level %s is called %q", i, logNames[m.level], s)
			}
			if v := teolog.LogLevel(m.level).String(); v != s {
				e.Failf("name", "operation %d: level %d is called %q and %q", i, m.level, s, v)
			}
			l.SetLevel(s)
		case "switch":
			m.level = (m.level + 1) % 9
			if v := l.SwitchLevel(); int(v) != m.level {
				e.Failf("switch", "operation %d: switched to %v, %s expected", i, v, logNames[m.level])
			}
		case "filter":
			m.filter = nil
			for _, f := range strings.Split(op.S, "||") {
				m.filter = append(m.filter, strings.TrimSpace(f))
			}
			if op.How%2 == 0 {
				l.SetFilter(op.S)
			} else {
				l.SetFilter(teolog.Logfilter(op.S))
			}
		case "list":
			m.filter = append([]string(nil), op.List...)
			l.SetFilter(teolog.Filter(append([]string(nil), op.List...)))
		case "clear":
			m.filter = nil
			l.ClearFilter()
		case "again": // what it says about its filter makes the same filter
			if m.filter == nil || strings.Contains(strings.Join(m.filter, ""), "|") {
				continue
			}
			l.SetFilter(l.Filter())
			for k := range m.filter {
				m.filter[k] = strings.TrimSpace(m.filter[k])
			}
		case "flags":
			m.flags = []int{0, log.LstdFlags, log.LstdFlags | log.Lmicroseconds, log.Lshortfile, defaultFlags}[op.N%5] | log.Lmsgprefix
			l.SetFlags(m.flags &^ log.Lmsgprefix)
		case "log":
			level := 1 + op.N%8
			lg := of(l, level)
			want := logTags[level]
			switch op.How % 3 {
			case 0:
				lg.Println(op.S)
				want += op.S + "\n"
			case 1:
				lg.Printf("%s!%d", op.S, op.N)
				want += fmt.Sprintf("%s!%d\n", op.S, op.N)
			case 2:
				lg.Print(op.S)
				want += op.S
				if !strings.HasSuffix(want, "\n") {
					want += "\n"
				}
			}
			got := output()
			if !m.shows(level, want) {
				hidden++
				if level <= m.level {
					filtered++
				}
				if got != "" {
					e.Failf("shown", "operation %d: %q was written at level %s with filter %q", i, got, logNames[m.level], m.filter)
				}
				continue
			}
			shown++
			if got == "" {
				e.Failf("hidden", "operation %d: %q was not written at level %s with filter %q", i, want, logNames[m.level], m.filter)
			} else if !strings.HasSuffix(got, want) || m.flags == log.Lmsgprefix && got != want || strings.Count(got, logTags[level]) != strings.Count(want, logTags[level]) {
				e.Failf("wrong", "operation %d: %q was written for %q", i, got, want)
			}
		case "node": // a node sets up its logger
			m.level, m.filter = op.N%9, []string{"#never#", "#" + op.S}
			t, err := tru.New(0, l, strings.ToUpper(logNames[m.level]), teolog.Logfilter(" #never# || #"+op.S))
			if err != nil {
				panic(harnessBug(err.Error()))
			}
			t.Close()
			time.Sleep(20 * time.Millisecond)
		case "many": // from several goroutines
			var wg sync.WaitGroup
			var want []string
			l.SetFlags(0)
			m.flags = log.Lmsgprefix
			for g := range 4 {
				for k := range 5 {
					level := 1 + (op.N+g+3*k)%8
					if s := fmt.Sprintf("%s%s %d-%d\n", logTags[level], op.S, g, k); m.shows(level, s) {
						want = append(want, s)
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := range 5 {
						of(l, 1+(op.N+g+3*k)%8).Printf("%s %d-%d", op.S, g, k)
					}
				}()
			}
			wg.Wait()
			got := strings.SplitAfter(output(), "\n")
			got = got[:len(got)-1]
			sort.Strings(got)
			sort.Strings(want)
			if strings.Contains(op.S, "\n") {
				continue
			}
			if strings.Join(got, "") != strings.Join(want, "") {
				e.Failf("many", "operation %d: written from several goroutines %q, expected %q", i, got, want)
			}
		}
		if v := l.Level(); int(v) != m.level {
			e.Failf("level", "operation %d (%s %q): the level is %v, %s expected", i, op.Op, op.S, v, logNames[m.level])
		}
		if s := strings.Join(m.filter, " || "); l.Filter() != s {
			e.Failf("filter", "operation %d (%s %q): the filter is %q, %q expected", i, op.Op, op.S, l.Filter(), s)
		}
		if s := output(); s != "" {
			e.Failf("noise", "operation %d (%s): %q was written", i, op.Op, s)
		}
	}
	s := strings.ToLower(loggers[0].Levels())
	for _, n := range logNames {
		if !strings.Contains(s, strings.ToLower(n)+" ") {
			e.Failf("levels", "the description of levels lacks %s", n)
		}
	}
	e.ClassIf(shown > 0, "shown")
	e.ClassIf(hidden > filtered, "hidden by level")
	e.ClassIf(filtered > 0, "hidden by filter")
	if shown > 0 && hidden > 0 {
		e.NonTrivial()
	}
}

func init() {
	register(&Spec{
		ID:    "C19",
		Real:  true,
		Rule:  "Sequences of operations on two loggers: levels set by number, by level and by name in any case and with spaces around, unknown names, switching, filters as text and as lists, cleared, replaced by their own description, flags, and log lines at every level, also from several goroutines. After every operation what was written, the level and the filter are compared with the model. Non-trivial: a line was shown and one was not.",
		Cases: map[Tier]int{Quick: 100000, Thorough: 2000000},
		Draw: func(rt *rapid.T, tier Tier) any {
			var c LogCase
			word := rapid.SampledFrom([]string{"A", "B", "AB", "BA", "A B", " A", "ABBA", "XY", "", "Ä", "AB|C", "%d", "erro", "debv", "[info]", "ZZZ", "AB\nBA", "a", "A\n"})
			text := rapid.Custom(func(rt *rapid.T) string {
				return strings.Join(rapid.SliceOfN(word, 0, 4).Draw(rt, "words"), rapid.SampledFrom([]string{" ", "", "-"}).Draw(rt, "sep"))
			})
			for l := range rapid.IntRange(0, 2).Draw(rt, "start") {
				c.Ops = append(c.Ops, LogOp{L: l, Op: "level", N: rapid.IntRange(0, 8).Draw(rt, "level")})
			}
			for i := rapid.IntRange(1, 40).Draw(rt, "n"); i > 0; i-- {
				op := LogOp{L: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "l"), N: rapid.IntRange(0, 255).Draw(rt, "nn"), How: rapid.IntRange(0, 11).Draw(rt, "how"),
					Op: rapid.SampledFrom([]string{"log", "log", "log", "log", "log", "log", "level", "level", "unknown", "names", "switch", "switch", "filter", "filter", "list", "clear", "again", "flags", "many"}).Draw(rt, "op")}
				switch op.Op {
				case "log", "many":
					op.S = text.Draw(rt, "text")
				case "unknown":
					op.S = rapid.SampledFrom([]string{"", "warning", "deb", "Debugvvvv", "1", "errors", "no ne", "DEBUG V", "trace", "wrong level"}).Draw(rt, "unknown")
				case "filter":
					op.S = strings.Join(rapid.SliceOfN(word, 1, 4).Draw(rt, "alts"), rapid.SampledFrom([]string{"||", " || ", "||  "}).Draw(rt, "or"))
				case "list":
					op.List = rapid.SliceOfN(word, 0, 4).Draw(rt, "list")
				}
				c.Ops = append(c.Ops, op)
			}
			if rapid.IntRange(0, 60).Draw(rt, "node") == 30 {
				c.Ops = append(c.Ops, LogOp{Op: "node", N: rapid.IntRange(0, 8).Draw(rt, "level"), S: "ABC"})
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runLogs(e, decode[LogCase](raw)) },
	})
}
