package harness

// The world of a scenario: nodes of the code under test on a simulated network,
// with recorders in every callback.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"
)

// Event is one call of a callback of a node
type Event struct {
	N      int // position among all events of the world
	T      time.Time
	Kind   string // "msg", "err", "connect", "punch"
	Level  string // "node" or "chan" for msg and err
	Ch     *tru.Channel
	Addr   string
	Server bool
	Data   []byte
	orig   []byte // the slice handed over (must not change later)
	ID     int
	Err    error
}

// Node is a node of the code under test
type Node struct {
	w    *World
	Tru  *tru.Tru
	IP   string
	Port int
	Name string

	mu     sync.Mutex
	events []Event

	// hooks run inside the callbacks, after recording
	OnMsg     func(ev Event) bool
	OnErr     func(ev Event)
	Claim     bool // what readers return for an error
	OnConnect func(ch *tru.Channel)
	OnPunch   func(addr net.Addr, data []byte)

	params []any
	closed bool
	bare   bool // no callbacks

	noReader bool // channels have readers, the node has none
}

// World is a set of nodes and peers on one network
type World struct {
	e     *Env
	net   *Net
	nodes []*Node
	mu    sync.Mutex
	n     int
	start time.Time
}

// NewWorld creates the world of a scenario
func NewWorld(e *Env, latency time.Duration) *World {
	w := &World{e: e, net: NewNet(latency), start: time.Now()}
	e.world = w
	tru.ListenPacketHook = w.net.ListenPacket
	e.Cleanup(func() {
		for _, n := range w.nodes {
			n.Close()
		}
		w.net.Close()
		w.Settle()
		tru.ListenPacketHook = nil
	})
	return w
}

// Settle waits until every goroutine of the bubble is blocked
func (w *World) Settle() {
	if w.e.InReal {
		time.Sleep(20 * time.Millisecond)
		return
	}
	synctest.Wait()
}

// Sleep lets time pass and everything that is due happen
func (w *World) Sleep(d time.Duration) {
	time.Sleep(d)
	w.Settle()
}

// Since is the time since the start of the scenario
func (w *World) Since(t time.Time) time.Duration { return t.Sub(w.start) }

func nodeIP(i int) string {
	if i%3 == 1 {
		return fmt.Sprintf("fd00::%x", i+1)
	}
	return fmt.Sprintf("10.0.0.%d", i+1)
}

// Node starts a node with recorders in all its callbacks
func (w *World) Node(params ...any) *Node {
	n, err := w.TryNode(len(w.nodes), 7000+len(w.nodes), params...)
	if err != nil {
		panic(harnessBug("New: " + err.Error()))
	}
	return n
}

// BareNode starts a node without callbacks of its own
func (w *World) BareNode(params ...any) *Node {
	return w.Node(append([]any{bareMark{}}, params...)...)
}

type bareMark struct{}
type plainMark struct{}

// noReaderMark is for a node without a reader of its own, whose channels have
// readers: what these get counts as the node's
type noReaderMark struct{}

// TryNode starts a node at a given place
func (w *World) TryNode(host, port int, params ...any) (*Node, error) {
	n := &Node{w: w, IP: nodeIP(host), Port: port, Name: string(rune('A' + len(w.nodes)))}
	args := []any{quietLog}
	plain := false
	for _, p := range params {
		if _, ok := p.(bareMark); ok {
			n.bare = true
			continue
		}
		if _, ok := p.(plainMark); ok {
			plain = true
			continue
		}
		if _, ok := p.(noReaderMark); ok {
			n.noReader = true
			continue
		}
		args = append(args, p)
	}
	if n.noReader {
		args = append(args, tru.ConnectFunc(n.connected), tru.PunchFunc(n.punched))
	} else if plain {
		args = append(args, tru.ReaderFunc(n.reader("node")))
	} else if !n.bare {
		args = append(args, tru.ReaderFunc(n.reader("node")), tru.ConnectFunc(n.connected), tru.PunchFunc(n.punched))
	}
	w.net.mu.Lock()
	w.net.nextIP = n.IP
	w.net.mu.Unlock()
	t, err := tru.New(port, args...)
	if err != nil {
		return nil, err
	}
	n.Tru = t
	w.nodes = append(w.nodes, n)
	return n, nil
}

// Addr is the address of the node
func (n *Node) Addr() string { return key(n.IP, n.Port) }

// Close closes the node, once
func (n *Node) Close() {
	n.mu.Lock()
	c := n.closed
	n.closed = true
	n.mu.Unlock()
	if !c && n.Tru != nil {
		n.Tru.Close()
	}
}

func (n *Node) record(ev Event) Event {
	ev.T = time.Now()
	n.w.mu.Lock()
	ev.N = n.w.n
	n.w.n++
	n.mu.Lock()
	n.events = append(n.events, ev)
	n.mu.Unlock()
	n.w.mu.Unlock()
	return ev
}

func chanAddr(ch *tru.Channel) string {
	if ch == nil {
		return ""
	}
	return ch.Addr().String()
}

// reader makes a reader callback which records
func (n *Node) reader(level string) func(ch *tru.Channel, pac *tru.Packet, err error) bool {
	return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		ev := Event{Kind: "msg", Level: level, Ch: ch, Addr: chanAddr(ch), Err: err}
		if ch != nil {
			ev.Server = ch.ServerMode()
		}
		if err != nil {
			ev.Kind = "err"
			ev = n.record(ev)
			if n.OnErr != nil {
				n.OnErr(ev)
			}
			return n.Claim
		}
		if pac != nil {
			ev.orig = pac.Data()
			ev.Data = append([]byte{}, ev.orig...)
			ev.ID = pac.ID()
		}
		ev = n.record(ev)
		if n.OnMsg != nil {
			return n.OnMsg(ev)
		}
		return false
	}
}

func (n *Node) connected(ch *tru.Channel, err error) {
	ev := Event{Kind: "connect", Ch: ch, Addr: chanAddr(ch), Err: err}
	if ch != nil {
		ev.Server = ch.ServerMode()
	}
	n.record(ev)
	if n.OnConnect != nil {
		n.OnConnect(ch)
	}
}

func (n *Node) punched(addr net.Addr, data []byte) {
	n.record(Event{Kind: "punch", Addr: addr.String(), Data: append([]byte{}, data...), orig: data})
	if n.OnPunch != nil {
		n.OnPunch(addr, data)
	}
}

// Events returns what the callbacks recorded so far
func (n *Node) Events() []Event {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Event(nil), n.events...)
}

// Select returns the events which fit
func (n *Node) Select(f func(Event) bool) (l []Event) {
	for _, e := range n.Events() {
		if f(e) {
			l = append(l, e)
		}
	}
	return
}

// Msgs returns the messages the node's reader got on the given channel
func (n *Node) Msgs(ch *tru.Channel) (l []Event) {
	level := "node"
	if n.noReader {
		level = "chan"
	}
	return n.Select(func(e Event) bool { return e.Kind == "msg" && e.Level == level && e.Ch == ch })
}

// Destroyed returns the ErrChannelDestroyed notices of the node's reader
func (n *Node) DestroyNotices(ch *tru.Channel, level string) (l []Event) {
	if n.noReader {
		level = "chan"
	}
	return n.Select(func(e Event) bool {
		return e.Kind == "err" && e.Level == level && e.Ch == ch && errors.Is(e.Err, tru.ErrChannelDestroyed)
	})
}

// Channels lists the node's channels
func (n *Node) Channels() (l []*tru.Channel) {
	n.Tru.ForEachChannel(func(ch *tru.Channel) { l = append(l, ch) })
	return
}

// ChannelTo finds the node's channel with a peer
func (n *Node) ChannelTo(addr string) *tru.Channel {
	for _, ch := range n.Channels() {
		if ch != nil && ch.Addr().String() == addr {
			return ch
		}
	}
	return nil
}

// Link is an established channel between two nodes
type Link struct {
	A, B *Node
	CA   *tru.Channel // at the client A
	CB   *tru.Channel // at the server B
}

// Connect connects a to b; on failure it returns nil and the error
func (w *World) Connect(a, b *Node, chanReader bool) (*Link, error) {
	var args []tru.ReaderFunc
	if chanReader {
		args = append(args, a.reader("chan"))
	}
	ch, err := a.Tru.Connect(b.Addr(), args...)
	if err != nil {
		return nil, err
	}
	w.Settle()
	return &Link{A: a, B: b, CA: ch, CB: b.ChannelTo(a.Addr())}, nil
}

// MustConnect connects over the undisturbed network; failing to is a violation
// of the kind "connect"
func (w *World) MustConnect(a, b *Node, chanReader bool) *Link {
	l, err := w.Connect(a, b, chanReader)
	if err != nil {
		w.e.Failf("connect", "connect %s to %s over an undisturbed network: %v", a.Name, b.Name, err)
		return nil
	}
	if l.CB == nil {
		w.e.Failf("connect", "%s connected to %s, which does not list the channel", a.Name, b.Name)
		return nil
	}
	return l
}

// payload makes the content of a message: its number, then bytes which depend
// on the seed, in one of several styles
func payload(seed uint64, n, size int) []byte {
	b := make([]byte, size)
	r := rand.New(rand.NewPCG(seed, uint64(n)))
	switch seed % 4 {
	case 0, 1:
		for i := 0; i+8 <= len(b); i += 8 {
			binary.LittleEndian.PutUint64(b[i:], r.Uint64())
		}
		for i := len(b) &^ 7; i < len(b); i++ {
			b[i] = byte(r.Uint32())
		}
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
	case 3: // zeros
	}
	if size >= 4 {
		binary.BigEndian.PutUint32(b, uint32(n))
	} else if size > 0 {
		b[0] = byte(n)
	}
	return b
}

func brief(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

// prefixOf checks that got is a prefix of want, and all of it if complete
func prefixOf(got, want [][]byte, complete bool) (kind, detail string) {
	for i, g := range got {
		if i >= len(want) {
			return "extra", fmt.Sprintf("message %d %s was received but only %d were sent", i, brief(g), len(want))
		}
		if !bytes.Equal(g, want[i]) {
			// name the kind of damage
			for j := range want {
				if bytes.Equal(g, want[j]) && len(g) >= 4 {
					if j < i {
						return "duplicate", fmt.Sprintf("message %d received is message %d of those sent: delivered again", i, j)
					}
					return "order", fmt.Sprintf("message %d received is message %d of those sent: messages skipped", i, j)
				}
			}
			return "corrupt", fmt.Sprintf("message %d received %s, sent %s", i, brief(g), brief(want[i]))
		}
	}
	if complete && len(got) < len(want) {
		return "missing", fmt.Sprintf("%d of %d messages received", len(got), len(want))
	}
	return "", ""
}

func datas(evs []Event) (l [][]byte) {
	for _, e := range evs {
		l = append(l, e.Data)
	}
	return
}

// mutated tells whether a message changed after it was handed over
func mutated(evs []Event) (int, bool) {
	for i, e := range evs {
		if e.orig != nil && !bytes.Equal(e.orig, e.Data) {
			return i, true
		}
	}
	return 0, false
}

func newLog() *teolog.Teolog { return teolog.New() }

func containsAny(s string, l ...string) bool {
	for _, x := range l {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}
