package harness

// C21: reading keys and terminal state.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/teonet-go/tru/term"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

// TermOp is an operation on the terminal
type TermOp struct {
	Op    string `json:"op"`
	Iflag uint32 `json:"i,omitempty"`
	Oflag uint32 `json:"o,omitempty"`
	Lflag uint32 `json:"l,omitempty"`
	Cc    []byte `json:"cc,omitempty"`
	Key   []byte `json:"key,omitempty"`
	N     int    `json:"n,omitempty"`
	X     int    `json:"x,omitempty"`
	Y     int    `json:"y,omitempty"`
}

// TermCase is the scenario
type TermCase struct {
	Ops []TermOp `json:"ops"`
}

const (
	termIflags = unix.IGNBRK | unix.BRKINT | unix.IGNPAR | unix.PARMRK | unix.INPCK | unix.ISTRIP | unix.INLCR | unix.IGNCR | unix.ICRNL |
		unix.IUCLC | unix.IXON | unix.IXANY | unix.IXOFF | unix.IMAXBEL | unix.IUTF8
	termOflags = unix.OPOST | unix.OLCUC | unix.ONLCR | unix.OCRNL | unix.ONOCR | unix.ONLRET
	termLflags = unix.ISIG | unix.ICANON | unix.ECHO | unix.ECHOE | unix.ECHOK | unix.ECHONL | unix.NOFLSH | unix.TOSTOP | unix.ECHOCTL |
		unix.ECHOPRT | unix.ECHOKE | unix.IEXTEN
	// of these a terminal which passes bytes on as they come has none
	cookedIflags = unix.PARMRK | unix.ISTRIP | unix.INLCR | unix.IGNCR | unix.ICRNL | unix.IXON
	cookedLflags = unix.ECHO | unix.ICANON | unix.ISIG
)

var (
	cursorSeq = regexp.MustCompile(`^\x1b\[(\d+);(\d+)[fH]$`)
	scrollSeq = regexp.MustCompile(`^\x1b\[(\d+);?(\d*)r$`)
)

func (e *Env) catch() {
	if r := recover(); r != nil {
		pr := panicResult(e, r, debug.Stack())
		if pr.Error != "" {
			e.Errorf("%s", pr.Error)
		} else {
			e.Failf(pr.Kind, "%s", pr.Detail)
		}
	}
}

// readingTerminal returns the stack of the goroutine which waits in a system
// call for a key, if any
func readingTerminal() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		head := strings.SplitN(g, "\n", 2)[0]
		if strings.Contains(g, "teonet-go/tru/term.") && (strings.Contains(head, "[syscall") || strings.Contains(head, "[IO wait")) {
			return head + stackFuncs(g)
		}
	}
	return ""
}

func sameAttrs(a, b unix.Termios) bool { return a == b }

func diffAttrs(a, b unix.Termios) string {
	s := ""
	if a.Iflag != b.Iflag {
		s += fmt.Sprintf(" iflag %o -> %o", a.Iflag, b.Iflag)
	}
	if a.Oflag != b.Oflag {
		s += fmt.Sprintf(" oflag %o -> %o", a.Oflag, b.Oflag)
	}
	if a.Cflag != b.Cflag {
		s += fmt.Sprintf(" cflag %o -> %o", a.Cflag, b.Cflag)
	}
	if a.Lflag != b.Lflag {
		s += fmt.Sprintf(" lflag %o -> %o", a.Lflag, b.Lflag)
	}
	for i := range a.Cc {
		if a.Cc[i] != b.Cc[i] {
			s += fmt.Sprintf(" cc[%d] %d -> %d", i, a.Cc[i], b.Cc[i])
		}
	}
	return s
}

func runTerm(e *Env, c TermCase) {
	p := newPty()
	var running chan []byte // the Getch which has not returned
	defer func() {
		p.hangup()
		if running != nil {
			select {
			case <-running:
			case <-time.After(5 * time.Second):
				e.Errorf("stuck: a read of a terminal which hung up does not end")
			}
		}
		p.close()
	}()
	p.asStdin()
	fd := int(p.stdin.Fd())
	type saved struct {
		state *term.State
		attrs unix.Termios
	}
	var states []saved
	cooked, control, long := false, false, false

	// getch presses the key and returns what Getch calls made of it
	getch := func(i int, key []byte, any bool) {
		before := p.attrs()
		raw := before.Iflag&cookedIflags == 0 && before.Lflag&cookedLflags == 0 && before.Cc[unix.VMIN] == 1 &&
			(before.Iflag&unix.IUCLC == 0 || before.Lflag&unix.IEXTEN == 0)
		cooked = cooked || !raw
		var got []byte
		for calls := 0; len(got) < len(key); calls++ {
			result := make(chan []byte, 1)
			running = result
			go func() {
				defer close(result)
				defer e.catch()
				if any {
					term.Anykey()
					result <- nil
					return
				}
				b := term.Getch()
				result <- append([]byte{}, b...)
			}()
			if calls == 0 {
				if !raw {
					start := time.Now()
					for n, last := 0, ""; time.Since(start) < 5*time.Second && sameAttrs(before, p.attrs()) && n < 4; {
						time.Sleep(20 * time.Microsecond)
						if time.Since(start) < 20*time.Millisecond {
							continue
						}
						// it may do without changing the attributes
						time.Sleep(5 * time.Millisecond)
						if s := readingTerminal(); s != "" && s == last {
							n++
						} else {
							n, last = 0, s
						}
					}
				}
				if i%3 == 0 {
					time.Sleep(time.Millisecond)
				}
				select {
				case b, ok := <-result:
					running = nil
					if ok {
						e.Failf("early", "operation %d: a key %q was returned before one was pressed", i, b)
					}
					return
				default:
				}
				p.press(key)
			}
			select {
			case b, ok := <-result:
				running = nil
				if !ok {
					return // panic
				}
				if any { // what is returned is not told
					if after := p.attrs(); !sameAttrs(before, after) {
						e.Failf("attributes", "operation %d: Anykey changed the terminal attributes:%s", i, diffAttrs(before, after))
					}
					return
				}
				got = append(got, b...)
				if calls == 0 && len(key) <= 3 && !bytes.Equal(b, key) || len(b) == 0 || len(b) > 3 || !bytes.HasPrefix(key, got) {
					e.Failf("key", "operation %d: Getch returned %v for the key %v (terminal attributes %+v)", i, b, key, before)
					return
				}
			case <-time.After(10 * time.Second):
				e.Failf("no-key", "operation %d: Getch does not return after the key %v was pressed (got %v; terminal attributes %+v)", i, key, got, before)
				return
			}
			if after := p.attrs(); !sameAttrs(before, after) {
				e.Failf("attributes", "operation %d: Getch changed the terminal attributes:%s", i, diffAttrs(before, after))
				return
			}
		}
		s, ok := p.shown()
		p.setAttrs(before)
		if !ok {
			e.Errorf("the marker does not come back: %q", s)
		} else if s != "" {
			e.Failf("echo", "operation %d: the terminal shows %q after the key %v", i, s, key)
		}
		for _, b := range key {
			control = control || b < 32 || b == 127
		}
		long = long || len(key) > 3
	}

	for i, op := range c.Ops {
		if e.Failed() {
			return
		}
		switch op.Op {
		case "attrs":
			t := p.attrs()
			t.Iflag = op.Iflag & termIflags
			t.Oflag = op.Oflag & termOflags
			t.Lflag = op.Lflag & termLflags
			copy(t.Cc[:17], op.Cc)
			p.setAttrs(t)
		case "key":
			getch(i, op.Key, false)
		case "any":
			key := op.Key
			if len(key) > 3 {
				key = key[:3]
			}
			getch(i, key, true)
		case "save", "raw":
			before := p.attrs()
			var st *term.State
			var err error
			if op.Op == "save" {
				st, err = term.GetState(fd)
			} else {
				st, err = term.MakeNonBlock(fd)
			}
			if err != nil || st == nil {
				e.Failf("state", "operation %d: %s returned %v, %v", i, op.Op, st, err)
				return
			}
			states = append(states, saved{st, before})
			after := p.attrs()
			if op.Op == "save" && !sameAttrs(before, after) {
				e.Failf("state", "operation %d: GetState changed the terminal attributes:%s", i, diffAttrs(before, after))
			}
			if op.Op == "raw" && after.Lflag&(unix.ICANON|unix.ECHO|unix.ISIG) != 0 {
				e.Failf("state", "operation %d: MakeNonBlock left the terminal with%s", i, diffAttrs(before, after))
			}
		case "restore":
			if len(states) == 0 {
				continue
			}
			s := states[op.N%len(states)]
			if err := term.RestoreState(fd, s.state); err != nil {
				e.Failf("state", "operation %d: RestoreState returned %v", i, err)
			}
			if after := p.attrs(); !sameAttrs(s.attrs, after) {
				e.Failf("state", "operation %d: restored state differs from the saved one:%s", i, diffAttrs(s.attrs, after))
			}
		case "size":
			ws := unix.Winsize{Col: uint16(op.X), Row: uint16(op.Y)}
			if err := unix.IoctlSetWinsize(p.slave, unix.TIOCSWINSZ, &ws); err != nil {
				panic(harnessBug(err.Error()))
			}
			w, h, err := term.GetSize(fd)
			if err != nil || w != int(ws.Col) || h != int(ws.Row) {
				e.Failf("size", "operation %d: size of a terminal of %d columns and %d rows is %d, %d, %v", i, ws.Col, ws.Row, w, h, err)
			}
		case "is":
			termIs(e, i, op.N, fd)
		case "esc":
			s := term.Func.SetCursorPosition(op.X, op.Y)
			if m := cursorSeq.FindStringSubmatch(s); m == nil || m[1] != strconv.Itoa(op.Y) || m[2] != strconv.Itoa(op.X) {
				e.Failf("cursor", "operation %d: cursor sequence for column %d, row %d is %q", i, op.X, op.Y, s)
			}
			s = term.Func.SetScrollRegion(op.Y)
			if m := scrollSeq.FindStringSubmatch(s); m == nil || m[1] != strconv.Itoa(op.Y) || m[2] != "" {
				e.Failf("scroll", "operation %d: scroll region sequence from row %d is %q", i, op.Y, s)
			}
			s = term.Func.SetScrollRegion(op.Y, op.N)
			n := strconv.Itoa(op.N)
			if op.N == 0 {
				n = ""
			}
			if m := scrollSeq.FindStringSubmatch(s); m == nil || m[1] != strconv.Itoa(op.Y) || m[2] != n {
				e.Failf("scroll", "operation %d: scroll region sequence from row %d, %d is %q", i, op.Y, op.N, s)
			}
		}
	}
	e.ClassIf(cooked, "terminal not raw before")
	e.ClassIf(control, "control key")
	e.ClassIf(long, "key of more than three bytes")
	e.ClassIf(len(states) > 0, "state saved")
	if cooked {
		e.NonTrivial()
	}
}

// termIs asks about things which are no terminal, and the terminal
func termIs(e *Env, i, n, fd int) {
	if !term.IsTerminal(fd) {
		e.Failf("terminal", "operation %d: a terminal is said to be none", i)
	}
	bad, name := -1, ""
	switch n % 6 {
	case 0:
		name = "/dev/null"
		f, err := os.Open(os.DevNull)
		if err != nil {
			return
		}
		defer f.Close()
		bad = int(f.Fd())
	case 1, 2:
		name = "a pipe"
		r, w, err := os.Pipe()
		if err != nil {
			return
		}
		defer r.Close()
		defer w.Close()
		bad = int(r.Fd())
		if n%6 == 2 {
			bad = int(w.Fd())
			io.WriteString(w, "x")
		}
	case 3:
		name = "a file"
		f, err := os.CreateTemp("", "verif-term")
		if err != nil {
			return
		}
		os.Remove(f.Name())
		defer f.Close()
		bad = int(f.Fd())
	case 4:
		name = "a socket"
		s, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_CLOEXEC, 0)
		if err != nil {
			return
		}
		defer unix.Close(s[0])
		defer unix.Close(s[1])
		bad = s[0]
	case 5:
		name = "a closed descriptor"
		bad = 100000
	}
	if term.IsTerminal(bad) {
		e.Failf("terminal", "operation %d: %s is said to be a terminal", i, name)
	}
	if w, h, err := term.GetSize(bad); err == nil {
		e.Failf("terminal", "operation %d: %s has the size %d, %d", i, name, w, h)
	}
	if _, err := term.GetState(bad); err == nil {
		e.Failf("terminal", "operation %d: %s has a terminal state", i, name)
	}
	if _, err := term.MakeNonBlock(bad); err == nil {
		e.Failf("terminal", "operation %d: %s was made a non-blocking terminal", i, name)
	}
	if st, err := term.GetState(fd); err == nil && term.RestoreState(bad, st) == nil {
		e.Failf("terminal", "operation %d: the state of %s was restored", i, name)
	}
}

func init() {
	register(&Spec{
		ID:    "C21",
		Real:  true,
		Rule:  "Sequences of operations on a pseudo terminal which is the standard input: any attributes (input, output and local flags, control characters) set, keys of one to six bytes of any value pressed and read with Getch and Anykey, states saved and restored in any order, sizes set, descriptors of other kinds. What Getch returns, what the terminal shows and its attributes are compared after every operation. Non-trivial: a key was read while the terminal was in another mode than raw.",
		Cases: map[Tier]int{Quick: 40000, Thorough: 1500000},
		Draw: func(rt *rapid.T, tier Tier) any {
			var c TermCase
			flags := func(all uint32, name string) uint32 {
				switch rapid.IntRange(0, 3).Draw(rt, name+" kind") {
				case 0:
					return 0
				case 1:
					return all
				}
				return rapid.Uint32().Draw(rt, name) & all
			}
			key := rapid.Custom(func(rt *rapid.T) []byte {
				switch rapid.IntRange(0, 7).Draw(rt, "key kind") {
				case 0:
					return []byte{rapid.Byte().Draw(rt, "key")}
				case 1:
					return []byte{byte(rapid.IntRange(0, 31).Draw(rt, "control"))}
				case 2:
					return []byte{27, 91, byte(rapid.IntRange(65, 72).Draw(rt, "arrow"))}
				case 3:
					return []byte(string(rune(rapid.IntRange(0x80, 0xd7ff).Draw(rt, "rune"))))
				case 4:
					return []byte{rapid.SampledFrom([]byte{3, 4, 10, 13, 17, 19, 22, 26, 28, 127, 255, 0, 'A', 0x80}).Draw(rt, "special")}
				case 5:
					return rapid.SliceOfN(rapid.Byte(), 4, 6).Draw(rt, "long")
				}
				return rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(rt, "bytes")
			})
			for i := rapid.IntRange(1, 14).Draw(rt, "n"); i > 0; i-- {
				op := TermOp{Op: rapid.SampledFrom([]string{"attrs", "attrs", "attrs", "key", "key", "key", "key", "key", "any", "save", "raw", "restore", "restore", "size", "is", "esc"}).Draw(rt, "op")}
				switch op.Op {
				case "attrs":
					op.Iflag = flags(termIflags, "iflag")
					op.Oflag = flags(termOflags, "oflag")
					op.Lflag = flags(termLflags, "lflag")
					if rapid.Bool().Draw(rt, "keep cc") {
						op.Cc = rapid.SliceOfN(rapid.Byte(), 17, 17).Draw(rt, "cc")
					}
				case "key", "any":
					op.Key = key.Draw(rt, "key")
				case "size", "esc":
					op.X = rapid.IntRange(0, 65535).Draw(rt, "x")
					op.Y = rapid.IntRange(0, 65535).Draw(rt, "y")
					op.N = rapid.IntRange(0, 300).Draw(rt, "n")
				default:
					op.N = rapid.IntRange(0, 11).Draw(rt, "n")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runTerm(e, decode[TermCase](raw)) },
	})
}
