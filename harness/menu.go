package harness

// C20: the hotkey menu.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/teolog"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

// MenuKey is a key of a menu entry
type MenuKey struct {
	Code []byte `json:"c"`
	Name string `json:"n,omitempty"`
}

// MenuOp is an operation on the menu, or an effect of an action
type MenuOp struct {
	Op   string    `json:"op"`
	Keys []MenuKey `json:"keys,omitempty"`
	Type int       `json:"type,omitempty"` // how the keys are given
	Desc string    `json:"desc,omitempty"`
	Nil  bool      `json:"nil,omitempty"` // no action
	Do   []MenuOp  `json:"do,omitempty"`  // what the action does
	Key  []byte    `json:"key,omitempty"`
	N    int       `json:"n,omitempty"`
}

// MenuCase is the scenario
type MenuCase struct {
	Own   bool     `json:"own,omitempty"` // tru's own menu
	Names bool     `json:"names,omitempty"`
	Ops   []MenuOp `json:"ops"`
}

type menuEntry struct {
	keys   []MenuKey
	desc   string
	action *menuAction
}

type menuAction struct {
	id int
	do []MenuOp
}

// menuModel is what the menu is expected to be
type menuModel struct {
	keys    map[string]*menuEntry
	unknown *menuAction
	deflt   bool // the default unknown key action
	next    *menuAction
	stops   []*menuAction
	state   any
	stopped bool
	log     []string
	ids     int
}

func (m *menuModel) newAction(op MenuOp) *menuAction {
	m.ids++
	if op.Nil {
		return nil
	}
	return &menuAction{id: m.ids, do: op.Do}
}

// menuRun executes the scenario on the menu; the model executes the same
// operations by the same function with h == nil
type menuRun struct {
	e    *Env
	h    *hotkey.Hotkey
	mu   sync.Mutex
	log  []string
	ids  int
	help []string // help texts seen inside actions
}

func (r *menuRun) note(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.log = append(r.log, fmt.Sprintf(format, a...))
}

func (r *menuRun) logged() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string(nil), r.log...)
}

func (r *menuRun) newID() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ids++
	return r.ids
}

func menuKeys(op MenuOp) any {
	switch op.Type {
	case 0:
		return string(op.Keys[0].Code)
	case 1:
		return append([]byte{}, op.Keys[0].Code...)
	case 2:
		var l []string
		for _, k := range op.Keys {
			l = append(l, string(k.Code))
		}
		return l
	case 3:
		return hotkey.KeyCode{Code: append([]byte{}, op.Keys[0].Code...), Name: op.Keys[0].Name}
	}
	var l []hotkey.KeyCode
	for _, k := range op.Keys {
		l = append(l, hotkey.KeyCode{Code: append([]byte{}, k.Code...), Name: k.Name})
	}
	return l
}

// apply executes an operation on the real menu
func (r *menuRun) apply(op MenuOp, h *hotkey.Hotkey) {
	switch op.Op {
	case "add":
		id := r.newID()
		var f func(*hotkey.Hotkey)
		if !op.Nil {
			f = func(h *hotkey.Hotkey) {
				r.note("action %d", id)
				if h != r.h {
					r.note("action %d got another menu", id)
				}
				r.all(op.Do, h)
				r.note("end %d", id)
			}
		}
		if h.Add(menuKeys(op), op.Desc, f) != h {
			r.note("Add returned another menu")
		}
	case "unknown":
		id := r.newID()
		var f func(*hotkey.Hotkey, []byte)
		if !op.Nil {
			f = func(h *hotkey.Hotkey, ch []byte) {
				r.note("unknown %d %v", id, ch)
				r.all(op.Do, h)
				r.note("end %d", id)
			}
		}
		if h.AddUnknown(f) != h {
			r.note("AddUnknown returned another menu")
		}
	case "next":
		id := r.newID()
		var f func([]byte)
		if !op.Nil {
			f = func(ch []byte) {
				r.note("next %d %v", id, ch)
				r.all(op.Do, h)
				r.note("end %d", id)
			}
		}
		h.NextKeyAction(f)
	case "onstop":
		id := r.newID()
		h.SetStopAction(func() { r.note("stop %d", id) })
	case "state":
		h.SetState(op.N)
	case "getstate":
		r.note("state %v", h.State())
	case "help":
		s := h.String()
		r.mu.Lock()
		r.help = append(r.help, s)
		r.mu.Unlock()
		r.note("help %d", len(r.help))
	case "stop":
		h.Stop()
	}
}

func (r *menuRun) all(ops []MenuOp, h *hotkey.Hotkey) {
	for _, op := range ops {
		r.apply(op, h)
	}
}

// modelled help texts by number
type menuHelp struct {
	entries []*menuEntry
	mapped  map[string]*menuEntry
}

func (m *menuModel) snapshot() menuHelp {
	h := menuHelp{mapped: map[string]*menuEntry{}}
	seen := map[*menuEntry]bool{}
	for k, en := range m.keys {
		h.mapped[k] = en
		if !seen[en] {
			seen[en] = true
			h.entries = append(h.entries, en)
		}
	}
	return h
}

// apply executes an operation on the model
func (m *menuModel) apply(op MenuOp, helps *[]menuHelp) {
	note := func(format string, a ...any) { m.log = append(m.log, fmt.Sprintf(format, a...)) }
	switch op.Op {
	case "add":
		en := &menuEntry{keys: op.Keys, desc: op.Desc, action: m.newAction(op)}
		for _, k := range op.Keys {
			m.keys[string(k.Code)] = en
		}
	case "unknown":
		m.unknown, m.deflt = m.newAction(op), false
	case "next":
		m.next = m.newAction(op)
	case "onstop":
		m.stops = append(m.stops, m.newAction(MenuOp{}))
	case "state":
		m.state = op.N
	case "getstate":
		note("state %v", m.state)
	case "help":
		*helps = append(*helps, m.snapshot())
		note("help %d", len(*helps))
	case "stop":
		m.stopped = true
		for _, a := range m.stops {
			note("stop %d", a.id)
		}
	}
}

// press runs the actions of a key
func (m *menuModel) press(key []byte, helps *[]menuHelp) {
	run := func(kind string, a *menuAction, ch string) {
		m.log = append(m.log, strings.TrimSpace(fmt.Sprintf("%s %d %s", kind, a.id, ch)))
		for _, op := range a.do {
			m.apply(op, helps)
		}
		m.log = append(m.log, fmt.Sprintf("end %d", a.id))
	}
	ch := fmt.Sprint(key)
	if a := m.next; a != nil {
		m.next = nil
		run("next", a, ch)
	}
	if en := m.keys[string(key)]; en != nil {
		if en.action != nil {
			run("action", en.action, "")
		}
	} else if m.unknown != nil {
		run("unknown", m.unknown, ch)
	}
}

// checkHelp compares a help text with the entries
func checkHelp(e *Env, s string, h menuHelp) {
	type line struct{ keys, desc string }
	name := func(k MenuKey) string {
		if k.Name != "" {
			return k.Name
		}
		return string(k.Code)
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if s == "" {
		lines = nil
	}
	if len(lines) != len(h.entries) {
		e.Failf("help", "the help of %d entries has %d lines:\n%s", len(h.entries), len(lines), s)
		return
	}
	left := append([]*menuEntry(nil), h.entries...)
	sort.SliceStable(left, func(i, j int) bool { return name(left[i].keys[0]) < name(left[j].keys[0]) })
	last := ""
	for _, l := range lines {
		found := -1
		for i, en := range left {
			// its keys, all of them, then its description
			rest := strings.TrimLeft(l, " ")
			if len(en.keys) > 1 {
				if !strings.HasPrefix(rest, "[") {
					continue
				}
				rest = rest[1:]
			}
			ok := true
			for j, k := range en.keys {
				if j > 0 {
					if ok = strings.HasPrefix(rest, " ") || strings.HasPrefix(rest, ","); !ok {
						break
					}
					rest = strings.TrimLeft(rest, " ,")
				}
				if ok = strings.HasPrefix(rest, name(k)); !ok {
					break
				}
				rest = rest[len(name(k)):]
			}
			if !ok {
				continue
			}
			if len(en.keys) > 1 {
				if !strings.HasPrefix(rest, "]") {
					continue
				}
				rest = rest[1:]
			}
			if !strings.HasPrefix(rest, " ") || strings.Trim(rest, " ") != en.desc {
				continue
			}
			found = i
			break
		}
		if found < 0 {
			e.Failf("help", "the line %q of the help is none of the entries, or one listed already:\n%s", l, s)
			return
		}
		if n := name(left[found].keys[0]); n < last {
			e.Failf("help", "the help is not sorted by the first key (%q after %q):\n%s", n, last, s)
			return
		} else {
			last = n
		}
		left = append(left[:found], left[found+1:]...)
	}
}

// menuPty makes a pseudo terminal on which keys are never special while the
// menu does not read (so that it does not matter when they are pressed)
func menuPty() *Pty {
	p := newPty()
	t := p.attrs()
	t.Iflag, t.Oflag = 0, 0
	t.Lflag = unix.ICANON | unix.ECHO
	for i := range t.Cc {
		t.Cc[i] = 0
	}
	p.setAttrs(t)
	return p
}

func runMenu(e *Env, c MenuCase) {
	if c.Own {
		runOwnMenu(e, c)
		return
	}
	p := menuPty()
	defer p.close()
	p.asStdin()
	attrs := p.attrs()
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	oldOut := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = oldOut; null.Close() }()

	h := hotkey.New()
	r := &menuRun{e: e, h: h}
	m := &menuModel{keys: map[string]*menuEntry{}, deflt: true}
	var helps []menuHelp
	const wait = 20 * time.Second
	until := func(f func() bool) bool {
		for start := time.Now(); !f(); {
			d := time.Since(start)
			if d > wait {
				return false
			}
			if d < 5*time.Millisecond {
				time.Sleep(20 * time.Microsecond)
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		return true
	}
	reading := func() bool { return p.attrs().Lflag&unix.ICANON == 0 }
	running := false
	// finish ends the loop of the menu: the model says it is stopped
	finish := func(i int) bool {
		if !until(func() bool { return !reading() && sameAttrs(attrs, p.attrs()) }) {
			e.Failf("stop", "operation %d: the menu reads on, or the terminal attributes are not restored, after it was stopped:%s", i, diffAttrs(attrs, p.attrs()))
			return false
		}
		// it must not take further keys
		if !until(func() bool { return !inMenu() }) || reading() {
			e.Failf("stop", "operation %d: the menu reads on after it was stopped", i)
			return false
		}
		running, m.stopped = false, false
		return true
	}
	check := func(i int, what string) bool {
		if !until(func() bool { return len(r.logged()) >= len(m.log) }) {
			e.Failf("missing", "operation %d (%s): what ran ends at %q, expected %q", i, what, tail(r.logged()), tail(m.log))
			return false
		}
		got := r.logged()
		for k := range got {
			if k >= len(m.log) || got[k] != m.log[k] {
				exp := "nothing"
				if k < len(m.log) {
					exp = m.log[k]
				}
				e.Failf("wrong", "operation %d (%s): %q ran, expected %q", i, what, got[k], exp)
				return false
			}
		}
		return true
	}
	press := func(i int, key []byte) bool {
		if !until(reading) {
			e.Failf("dead", "operation %d: the menu does not wait for a key", i)
			return false
		}
		// every key has to be noticed, or the next one may be read with it
		en := m.keys[string(key)]
		if m.next == nil && (en != nil && en.action == nil || en == nil && m.unknown == nil) {
			m.apply(MenuOp{Op: "next"}, &helps)
			r.apply(MenuOp{Op: "next"}, h)
		}
		m.press(key, &helps)
		p.press(key)
		if !check(i, fmt.Sprintf("key %v", key)) {
			return false
		}
		if m.stopped {
			return finish(i)
		}
		return true
	}
	dirty := false
	sync := func(i int) bool { // the key before has been dealt with completely
		if !running || e.Failed() || !dirty {
			return !e.Failed()
		}
		dirty = false
		// the loop is back in the read after an action of its own
		probe := []byte{0xfe, 0xfd}
		r.apply(MenuOp{Op: "add", Type: 1, Keys: []MenuKey{{Code: probe}}}, h)
		m.apply(MenuOp{Op: "add", Type: 1, Keys: []MenuKey{{Code: probe}}}, &helps)
		return press(i, probe)
	}
	defer func() { // end the loop before the terminal goes
		if running && !endMenu(p, h, reading, "q") {
			e.Failf("stop", "the menu reads on after it was stopped and a key was pressed")
		}
		p.hangup()
	}()
	hit, missed, stops, nexts := 0, 0, 0, 0
	for i, op := range c.Ops {
		if e.Failed() {
			return
		}
		switch op.Op {
		case "run":
			if running {
				continue
			}
			if h.Run() != h {
				e.Failf("run", "operation %d: Run returned another menu", i)
			}
			running = true
		case "key":
			if !running {
				continue
			}
			dirty = true
			if m.keys[string(op.Key)] != nil {
				hit++
			} else {
				missed++
			}
			if m.next != nil {
				nexts++
			}
			if !press(i, op.Key) {
				return
			}
			if !running {
				stops++
			}
		case "stop": // from outside, takes effect at the next key, which runs nothing
			if !running || !sync(i) || !running {
				continue
			}
			if !until(reading) {
				e.Failf("dead", "operation %d: the menu does not wait for a key", i)
				return
			}
			stops++
			m.apply(op, &helps)
			r.apply(op, h)
			if !check(i, "stop") {
				return
			}
			if reading() {
				p.press([]byte("k"))
			}
			if !finish(i) || !check(i, "key after stop") {
				return
			}
		default:
			if running && !sync(i) {
				return
			}
			m.apply(op, &helps)
			r.apply(op, h)
			if !check(i, op.Op) {
				return
			}
		}
	}
	if running {
		sync(len(c.Ops))
	}
	time.Sleep(100 * time.Microsecond)
	if !check(len(c.Ops), "end") || e.Failed() {
		return
	}
	r.mu.Lock()
	texts := r.help
	r.mu.Unlock()
	for k, s := range texts {
		checkHelp(e, s, helps[k])
	}
	e.ClassIf(hit > 0, "key of an entry")
	e.ClassIf(missed > 0, "unknown key")
	e.ClassIf(nexts > 0, "next key action")
	e.ClassIf(stops > 0, "stopped")
	e.ClassIf(len(texts) > 0, "help")
	if hit > 0 && len(m.log) > 4 {
		e.NonTrivial()
	}
}

// endMenu ends the loop of a menu before its terminal goes
func endMenu(p *Pty, h *hotkey.Hotkey, reading func() bool, key string) bool {
	h.Stop()
	for start, k := time.Now(), 0; inMenu(); k++ {
		if time.Since(start) > 20*time.Second {
			return false
		}
		if k%100 == 0 && reading() && p.waiting() == 0 {
			p.press([]byte(key))
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

// inMenu tells whether a goroutine executes the menu
func inMenu() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Contains(string(buf), "teonet-go/tru/hotkey.")
}

func tail(l []string) []string {
	if len(l) > 6 {
		l = l[len(l)-6:]
	}
	return l
}

// runOwnMenu checks the menu which tru itself offers
func runOwnMenu(e *Env, c MenuCase) {
	p := menuPty()
	defer p.close()
	p.asStdin()
	file, err := os.CreateTemp("", "verif-menu")
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	os.Remove(file.Name())
	defer file.Close()
	old := os.Stdout
	os.Stdout = file
	defer func() { os.Stdout = old }()
	output := func() string {
		end, _ := file.Seek(0, io.SeekEnd)
		b := make([]byte, end)
		file.ReadAt(b, 0)
		return string(b)
	}
	log := teolog.New()
	t, err := tru.New(0, log, "None", tru.Hotkey(true))
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	h := t.Hotkey()
	reading := func() bool { return p.attrs().Lflag&unix.ICANON == 0 }
	defer func() {
		if !endMenu(p, h, reading, "#") {
			e.Failf("stop", "tru's menu reads on after it was stopped and a key was pressed")
		}
		t.Close()
		p.hangup()
		time.Sleep(20 * time.Millisecond)
	}()
	until := func(f func() bool) bool {
		for start := time.Now(); !f(); time.Sleep(50 * time.Microsecond) {
			if time.Since(start) > 20*time.Second {
				return false
			}
		}
		return true
	}
	stopped := 0
	h.SetStopAction(func() { stopped++ })
	// a user's entry in the same menu tells when a key has been dealt with
	done := make(chan bool, 1)
	h.Add([]byte{0xfe}, "probe", func(*hotkey.Hotkey) { done <- true })
	level, saved, printing := 0, -1, false
	level = int(log.Level())
	for i, op := range c.Ops {
		if op.Op == "level" {
			log.SetLevel(op.N % 9)
			level = op.N % 9
			continue
		}
		if op.Op != "key" {
			continue
		}
		if string(op.Key) == "\r" && printing {
			continue // the statistics print lines, too
		}
		if !until(reading) {
			e.Failf("dead", "operation %d: tru's menu does not wait for a key", i)
			return
		}
		before := output()
		if saved >= 0 { // the next key turns the logger on again
			level, saved = saved, -1
		}
		want := ""
		switch string(op.Key) {
		case "h", "?":
			want = "show this help screen"
			saved, level = level, 0
		case "L":
			want = "level: " + strings.ToLower(logNames[level])
			saved, level = level, 0
		case "l":
			level = (level + 1) % 9
			want = "level: " + strings.ToLower(logNames[level])
		case "u":
			printing = !printing
			want = "stopped"
			if printing {
				want = "started"
			}
		case "U":
			want = "minilog"
		case "\r":
			want = "\n"
		default:
			want = "unknown key"
		}
		p.press(op.Key)
		if !until(func() bool { return strings.Contains(strings.ToLower(output()[len(before):]), want) }) {
			e.Failf("own", "operation %d: key %q of tru's menu shows %q, expected %q", i, op.Key, output()[len(before):], want)
			return
		}
		if (string(op.Key) == "h" || string(op.Key) == "?") && !until(func() bool { return strings.Contains(output()[len(before):], "any key to continue") }) {
			e.Failf("own", "operation %d: the help of tru's menu is not shown", i)
		}
		if string(op.Key) == "h" || string(op.Key) == "?" {
			help := output()[len(before):]
			for _, en := range []string{"[h ?] ", "u ", "U ", "l ", "L ", "Ctrl+L ", "f ", "Ctrl+C ", "q ", "\xfe "} {
				if n := strings.Count(help, "\n   "+en); n != 1 {
					e.Failf("own", "operation %d: the help of tru's menu lists %q %d times:\n%s", i, en, n, help)
				}
			}
		}
		if !until(func() bool { return int(log.Level()) == level }) {
			e.Failf("own", "operation %d: after key %q of tru's menu the logger is at level %s, expected %s", i, op.Key, log.Level(), logNames[level])
			return
		}
		if !until(func() bool { return t.StatisticPrintRunning() == printing }) {
			e.Failf("own", "operation %d: after key %q of tru's menu statistics are printed: %v, expected %v", i, op.Key, t.StatisticPrintRunning(), printing)
			return
		}
	}
	if e.Failed() {
		return
	}
	// a probe, then Ctrl+C ends the menu
	if !until(reading) {
		e.Failf("dead", "tru's menu does not wait for a key")
		return
	}
	p.press([]byte{0xfe})
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		e.Failf("own", "an entry added to tru's menu does not run")
		return
	}
	if saved >= 0 && !until(func() bool { return int(log.Level()) == saved }) {
		e.Failf("own", "the logger is not turned on again after the next key")
	}
	if !until(reading) {
		e.Failf("dead", "tru's menu does not wait for a key")
		return
	}
	p.press([]byte{3})
	if !until(func() bool { return strings.Contains(output(), "menu stopped") && !reading() }) {
		e.Failf("own", "Ctrl+C does not end tru's menu")
		return
	}
	if stopped != 1 {
		e.Failf("own", "the stop action ran %d times", stopped)
	}
	e.Class("tru's menu")
	if len(c.Ops) > 2 {
		e.NonTrivial()
	}
}

func init() {
	alphabet := []string{"a", "b", "c", "A", "?", "h", "\x1b[D", "\x03", "ж", "ab", "abc", "\r", "\xff", "\x00", "€"}
	names := []string{"", "", "F1", "Ctrl+A", "Left", "a", "zz", "B"}
	descs := []string{"first", "do it", "x", "a long description of the thing", "again", "100%", "%d", ""}
	register(&Spec{
		ID:    "C20",
		Real:  true,
		Rule:  "Menus built and changed by sequences of operations (entries with keys given in all forms, colliding and replaced, without action; unknown-key, next-key and stop actions; state; help; run, stop and run again) whose actions perform such operations themselves, driven by keys pressed on a pseudo terminal, and tru's own menu with a user's entry. The log of what ran is compared with that of a model after every key. Non-trivial: a key of an entry was pressed and more than two things ran.",
		Cases: map[Tier]int{Quick: 20000, Thorough: 600000},
		Draw: func(rt *rapid.T, tier Tier) any {
			var c MenuCase
			if rapid.IntRange(0, 25).Draw(rt, "own") == 13 {
				c.Own = true
				for i := rapid.IntRange(1, 10).Draw(rt, "n"); i > 0; i-- {
					if rapid.IntRange(0, 4).Draw(rt, "level") == 2 {
						c.Ops = append(c.Ops, MenuOp{Op: "level", N: rapid.IntRange(0, 8).Draw(rt, "nn")})
					}
					c.Ops = append(c.Ops, MenuOp{Op: "key", Key: []byte(rapid.SampledFrom([]string{"h", "?", "L", "l", "l", "l", "u", "U", "\r", "x", "\x1b[D"}).Draw(rt, "key"))})
				}
				return c
			}
			few := rapid.SliceOfN(rapid.SampledFrom(alphabet), 1, 6).Draw(rt, "alphabet")
			keys := func(rt *rapid.T, typ int) (l []MenuKey) {
				n := 1
				if typ == 2 || typ == 4 {
					n = rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4, 5, 6}).Draw(rt, "keys")
				}
				for range n {
					k := MenuKey{Code: []byte(rapid.SampledFrom(few).Draw(rt, "code"))}
					if typ >= 3 {
						k.Name = rapid.SampledFrom(names).Draw(rt, "name")
					}
					l = append(l, k)
				}
				return
			}
			printable := func(k MenuKey) bool { // in help texts
				if k.Name != "" {
					return true
				}
				return !bytes.ContainsAny(k.Code, "\r\n[] ")
			}
			var ops func(rt *rapid.T, n, depth int) []MenuOp
			ops = func(rt *rapid.T, n, depth int) (l []MenuOp) {
				kinds := []string{"add", "add", "add", "unknown", "next", "next", "onstop", "state", "getstate", "help"}
				if depth == 0 {
					kinds = append(kinds, "key", "key", "key", "key", "key", "key", "key", "key", "key", "run", "stop")
				} else {
					kinds = append(kinds, "stop")
				}
				for ; n > 0; n-- {
					op := MenuOp{Op: rapid.SampledFrom(kinds).Draw(rt, "op")}
					switch op.Op {
					case "add":
						op.Type = rapid.IntRange(0, 4).Draw(rt, "type")
						op.Keys = keys(rt, op.Type)
						op.Desc = rapid.SampledFrom(descs).Draw(rt, "desc")
						for k := range op.Keys {
							if !printable(op.Keys[k]) {
								op.Keys[k].Code = []byte("k")
							}
						}
					case "key":
						op.Key = []byte(rapid.SampledFrom(few).Draw(rt, "key"))
						if rapid.IntRange(0, 9).Draw(rt, "other") == 5 {
							op.Key = []byte(rapid.SampledFrom(alphabet).Draw(rt, "key"))
						}
					case "state":
						op.N = rapid.IntRange(0, 9).Draw(rt, "n")
					}
					switch op.Op {
					case "add", "unknown", "next":
						op.Nil = rapid.IntRange(0, 5).Draw(rt, "nil") == 3
						if depth < 2 && !op.Nil && rapid.Bool().Draw(rt, "effects") {
							op.Do = ops(rt, rapid.IntRange(1, 3).Draw(rt, "nd"), depth+1)
						}
					}
					l = append(l, op)
				}
				return
			}
			for _, op := range ops(rt, rapid.IntRange(0, 5).Draw(rt, "before"), 1) {
				if op.Op != "stop" {
					c.Ops = append(c.Ops, op)
				}
			}
			c.Ops = append(c.Ops, MenuOp{Op: "run"})
			c.Ops = append(c.Ops, ops(rt, rapid.IntRange(1, 30).Draw(rt, "n"), 0)...)
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runMenu(e, decode[MenuCase](raw)) },
	})
}
