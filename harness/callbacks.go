package harness

// C17: callbacks which use the API.

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// CbAction is what a callback does
type CbAction struct {
	Op    string `json:"op"`
	Chan  int    `json:"chan"` // 0 the callback's channel, n the n-th of the node
	N     int    `json:"n"`
	Size  int    `json:"size"`
	Deliv int    `json:"deliv"` // 0 none, 1 a delivery callback, 2 with a timeout too short
	Go    bool   `json:"go"`    // in another goroutine which the callback waits for
}

// CbTrigger binds actions to one call of a callback
type CbTrigger struct {
	Node int        `json:"node"`
	Kind string     `json:"kind"`
	Nth  int        `json:"nth"`
	Acts []CbAction `json:"acts"`
}

// CbMain is an operation of the main program
type CbMain struct {
	WaitU int    `json:"wait"`
	Op    string `json:"op"`
	Link  int    `json:"link"`
	Side  int    `json:"side"`
	N     int    `json:"n"`
	Size  int    `json:"size"`
	Deliv int    `json:"deliv"`
}

// CbCase is the scenario
type CbCase struct {
	LatU   int         `json:"lat"`
	TickU  int         `json:"tick"` // datagrams arrive together every so often, µs
	Nodes  int         `json:"nodes"`
	Links  [][2]int    `json:"links"`
	ChanRd bool        `json:"chanrd"`
	Main   []CbMain    `json:"main"`
	Trig   []CbTrigger `json:"trig"`
}

// cbEnd is one end of a channel
type cbEnd struct {
	n      *Node
	ch     *tru.Channel
	peer   string
	closed atomic.Bool // somebody closed it, the other end, or a node
}

type cbSend struct {
	what   string
	data   string
	from   *Node
	to     string
	ch     *tru.Channel
	deliv  int
	calls  atomic.Int32
	delErr atomic.Value
	err    error
	t      time.Time
	// both ends were alive and nobody had closed them
	clean bool
}

type cbAct struct {
	what  string
	start time.Time
	done  atomic.Bool
}

type cbWorld struct {
	e      *Env
	w      *World
	c      CbCase
	lat    time.Duration
	mu     sync.Mutex
	nodes  []*Node
	extra  []*Node // targets of connections made in callbacks
	counts map[string]int
	fired  map[int]bool
	kinds  map[string]bool
	sends  []*cbSend
	acts   []*cbAct
	shut   map[*Node]bool  // somebody closed the node
	gone   map[string]bool // addr>addr pairs somebody closed a channel of
	next   int
	punch  []string // expected punches: data
	over   bool     // callbacks do nothing any more
	nSend  int
	closes int
}

func pairKey(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + " " + b
}

// send writes a message with its checks
func (x *cbWorld) send(what string, n *Node, ch *tru.Channel, size, deliv int) {
	x.mu.Lock()
	x.nSend++
	data := fmt.Sprintf("m%d.", x.nSend)
	x.mu.Unlock()
	b := make([]byte, max(size, len(data)))
	for i := range b {
		b[i] = byte(i)
	}
	copy(b, data)
	s := &cbSend{what: what, data: string(b), from: n, to: ch.Addr().String(), ch: ch, deliv: deliv, t: time.Now()}
	args := []any{}
	if deliv > 0 {
		args = append(args, func(_ *tru.Packet, err error) {
			s.calls.Add(1)
			k := "delivered"
			if err != nil {
				k = "timeout"
				s.delErr.Store(err)
			}
			x.call(n, k, ch)
		})
	}
	if deliv == 2 {
		args = append(args, time.Microsecond)
	}
	dead := ch.Destroyed()
	_, s.err = ch.WriteTo(b, args...)
	if dead && s.err == nil {
		x.e.Failf("effect", "%s: a write to a destroyed channel succeeded", what)
	}
	if s.err != nil && !ch.Destroyed() && !x.isShut(n) {
		x.e.Failf("effect", "%s: a write to a live channel failed: %v", what, s.err)
	}
	x.mu.Lock()
	x.sends = append(x.sends, s)
	x.mu.Unlock()
}

func (x *cbWorld) isShut(n *Node) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.shut[n]
}

func (x *cbWorld) markGone(a, b string) {
	x.mu.Lock()
	x.gone[pairKey(a, b)] = true
	x.mu.Unlock()
}

// call counts a callback and runs what is bound to it
func (x *cbWorld) call(n *Node, kind string, ch *tru.Channel) {
	i := -1
	for k, m := range x.nodes {
		if m == n {
			i = k
		}
	}
	if i < 0 {
		return
	}
	x.mu.Lock()
	key := fmt.Sprintf("%d/%s", i, kind)
	x.counts[key]++
	nth := x.counts[key]
	var acts []CbAction
	for k, t := range x.c.Trig {
		if !x.over && t.Node == i && t.Kind == kind && t.Nth == nth && !x.fired[k] {
			x.fired[k] = true
			acts = append(acts, t.Acts...)
		}
	}
	if len(acts) > 0 {
		x.kinds[kind] = true
	}
	x.mu.Unlock()
	for k, a := range acts {
		what := fmt.Sprintf("action %d (%s) in %s callback %d of %s", k, a.Op, kind, nth, n.Name)
		rec := &cbAct{what: what, start: time.Now()}
		x.mu.Lock()
		x.acts = append(x.acts, rec)
		x.mu.Unlock()
		if a.Go {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { defer wg.Done(); x.act(what, n, ch, kind, a) }()
			wg.Wait()
		} else {
			x.act(what, n, ch, kind, a)
		}
		rec.done.Store(true)
	}
}

func (x *cbWorld) act(what string, n *Node, ch *tru.Channel, kind string, a CbAction) {
	e := x.e
	if a.Chan > 0 || ch == nil {
		if l := n.Channels(); len(l) > 0 {
			// in a stable order
			best := l[0]
			for k := range l {
				if l[k].Addr().String() < best.Addr().String() {
					best = l[k]
				}
			}
			if a.Chan > 1 {
				best = l[a.Chan%len(l)]
			}
			ch = best
		}
	}
	needs := map[string]bool{"send": true, "close": true, "attrs": true, "send-wait": true}
	if needs[a.Op] && ch == nil {
		return
	}
	x.mu.Lock()
	x.kinds["do "+a.Op] = true
	x.mu.Unlock()
	switch a.Op {
	case "send":
		for range max(a.N, 1) {
			x.send(what, n, ch, a.Size, a.Deliv)
		}
	case "send-wait":
		done := make(chan error, 4)
		if _, err := ch.WriteTo([]byte("waited for"), func(_ *tru.Packet, err error) { done <- err }); err != nil {
			if !ch.Destroyed() && !x.isShut(n) {
				e.Failf("effect", "%s: a write to a live channel failed: %v", what, err)
			}
			return
		}
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			e.Failf("effect", "%s: the delivery callback of a message sent in a callback which waits for it is not called", what)
		}
	case "close":
		x.closeChan(what, n, ch)
	case "connect":
		x.mu.Lock()
		var t *Node
		if x.next < len(x.extra) {
			t = x.extra[x.next]
			x.next++
		}
		x.mu.Unlock()
		if t == nil {
			return
		}
		shut := x.isShut(n)
		start := time.Now()
		c, err := n.Tru.Connect(t.Addr(), n.reader("chan"))
		if time.Since(start) > 5*time.Second+100*time.Millisecond {
			e.Failf("effect", "%s: Connect took %v", what, time.Since(start))
		}
		if shut || x.isShut(n) {
			return
		}
		if err != nil {
			e.Failf("effect", "%s: Connect over an undisturbed network: %v", what, err)
			return
		}
		x.send(what+", first message", n, c, a.Size, a.Deliv)
	case "stat":
		dead := ch == nil || ch.Destroyed() || n.Tru == nil || !listed(n, ch)
		st := n.Tru.Statistic()
		_ = st.String()
		found := false
		for _, s := range st {
			found = found || ch != nil && s.Addr == ch.Addr().String()
		}
		if !dead && !found && !ch.Destroyed() {
			e.Failf("effect", "%s: the statistic lacks channel %s", what, ch.Addr())
		}
	case "foreach":
		alive := ch != nil && !ch.Destroyed()
		found := false
		var l []*tru.Channel
		n.Tru.ForEachChannel(func(c *tru.Channel) {
			found = found || c == ch
			l = append(l, c)
			if a.Deliv > 0 {
				c.Triptime()
				n.Tru.Statistic()
				n.Tru.ForEachChannel(func(*tru.Channel) {})
			}
		})
		if alive && !found && !ch.Destroyed() {
			e.Failf("effect", "%s: channel %s is not enumerated", what, ch.Addr())
		}
	case "foreach-send":
		n.Tru.ForEachChannel(func(c *tru.Channel) { x.send(what, n, c, a.Size, a.Deliv) })
	case "foreach-close":
		n.Tru.ForEachChannel(func(c *tru.Channel) { x.closeChan(what, n, c) })
	case "attrs":
		if ch.Addr() == nil || ch.String() != ch.Addr().String() || ch.IP() == nil || ch.Port() == 0 {
			e.Failf("effect", "%s: address of the channel: %v", what, ch.Addr())
		}
		ch.Triptime()
		ch.ServerMode()
		if n.Tru.LocalPort() != n.Port {
			e.Failf("effect", "%s: local port %d", what, n.Tru.LocalPort())
		}
		n.Tru.SetSendDelay(15)
		n.Tru.SetMaxDataLen(0)
		_ = n.Tru.LocalAddr().String()
		n.Tru.StatisticMinilog()
	case "punch":
		to := x.nodes[a.N%len(x.nodes)]
		if to == n || x.isShut(n) {
			return
		}
		x.mu.Lock()
		x.nSend++
		data := fmt.Sprintf("p%d.", x.nSend)
		x.mu.Unlock()
		if _, err := n.Tru.WriteToPunch([]byte(data), to.Addr()); err != nil {
			e.Failf("effect", "%s: WriteToPunch: %v", what, err)
			return
		}
		x.mu.Lock()
		if !x.shut[n] && !x.shut[to] {
			x.punch = append(x.punch, to.Addr()+" "+data)
		}
		x.mu.Unlock()
	case "setpunch":
		n.Tru.SetPunchCb(n.punched)
	case "sleep":
		time.Sleep(time.Duration(a.N) * 60 * time.Millisecond)
	case "nodeclose":
		x.mu.Lock()
		x.shut[n] = true
		x.mu.Unlock()
		for _, c := range n.Channels() {
			x.markGone(n.Addr(), c.Addr().String())
		}
		chs := n.Channels()
		n.mu.Lock()
		again := n.closed
		n.closed = true
		n.mu.Unlock()
		n.Tru.Close()
		if again || kind == "closed" {
			return
		}
		for _, c := range chs {
			if !c.Destroyed() {
				e.Failf("effect", "%s: channel %s is not destroyed when Close returns", what, c.Addr())
			}
		}
		for _, b := range x.w.net.Bound() {
			if b == n.Addr() {
				e.Failf("effect", "%s: the port is in use when Close returns", what)
			}
		}
	default:
		panic(harnessBug("unknown action " + a.Op))
	}
}

func listed(n *Node, ch *tru.Channel) bool {
	for _, c := range n.Channels() {
		if c == ch {
			return true
		}
	}
	return false
}

func (x *cbWorld) closeChan(what string, n *Node, ch *tru.Channel) {
	x.markGone(n.Addr(), ch.Addr().String())
	x.mu.Lock()
	x.closes++
	x.mu.Unlock()
	ch.Close()
	if !ch.Destroyed() {
		x.e.Failf("effect", "%s: Destroyed() is false after Close", what)
	}
	if listed(n, ch) {
		x.e.Failf("effect", "%s: the channel is listed after Close", what)
	}
}

func runCallbacks(e *Env, c CbCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	w.net.Tick = time.Duration(c.TickU) * time.Microsecond
	lat += w.net.Tick
	x := &cbWorld{e: e, w: w, c: c, lat: lat, counts: map[string]int{}, fired: map[int]bool{}, kinds: map[string]bool{},
		shut: map[*Node]bool{}, gone: map[string]bool{}}
	hook := func(n *Node) {
		n.OnMsg = func(ev Event) bool {
			k := "msg"
			if ev.Level == "chan" {
				k = "chanmsg"
			}
			x.call(n, k, ev.Ch)
			return false
		}
		n.OnErr = func(ev Event) {
			switch {
			case errors.Is(ev.Err, tru.ErrTruClosed):
				x.call(n, "closed", nil)
			case ev.Level == "chan":
				x.call(n, "channotice", ev.Ch)
			default:
				x.call(n, "notice", ev.Ch)
			}
		}
		n.OnConnect = func(ch *tru.Channel) { x.call(n, "connect", ch) }
		n.OnPunch = func(addr net.Addr, _ []byte) { x.call(n, "punch", n.ChannelTo(addr.String())) }
	}
	for range c.Nodes {
		n := w.Node()
		hook(n)
		x.nodes = append(x.nodes, n)
	}
	for _, t := range c.Trig {
		for _, a := range t.Acts {
			if a.Op == "connect" {
				x.extra = append(x.extra, w.Node())
			}
		}
	}
	// connect, at the same time
	var wg sync.WaitGroup
	ends := make([][2]*tru.Channel, len(c.Links))
	for i, l := range c.Links {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, b := x.nodes[l[0]], x.nodes[l[1]]
			var args []tru.ReaderFunc
			if c.ChanRd {
				args = append(args, a.reader("chan"))
			}
			ch, err := a.Tru.Connect(b.Addr(), args...)
			if err != nil {
				x.mu.Lock()
				excused := x.shut[a] || x.shut[b] || x.gone[pairKey(a.Addr(), b.Addr())]
				x.mu.Unlock()
				if !excused {
					e.Failf("connect", "link %d: connecting over an undisturbed network: %v", i, err)
				}
				return
			}
			ends[i][0] = ch
		}()
	}
	wg.Wait()
	time.Sleep(lat + time.Millisecond)
	for i, l := range c.Links {
		ends[i][1] = x.nodes[l[1]].ChannelTo(x.nodes[l[0]].Addr())
	}
	for i, m := range c.Main {
		time.Sleep(time.Duration(m.WaitU) * time.Microsecond)
		l := m.Link % len(c.Links)
		n := x.nodes[c.Links[l][m.Side]]
		ch := ends[l][m.Side]
		what := fmt.Sprintf("main operation %d (%s)", i, m.Op)
		switch m.Op {
		case "send":
			if ch == nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range max(m.N, 1) {
					x.send(what, n, ch, m.Size, m.Deliv)
				}
			}()
		case "close":
			if ch != nil {
				x.closeChan(what, n, ch)
			}
		case "punch":
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.act(what, n, ch, "main", CbAction{Op: "punch", N: c.Links[l][1-m.Side]})
			}()
		case "nodeclose":
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.act(what, n, ch, "main", CbAction{Op: "nodeclose"})
			}()
		}
	}
	// let everything finish; every callback has to return
	for i := 0; i < 120; i++ {
		w.Sleep(time.Second)
		busy := false
		x.mu.Lock()
		for _, r := range x.acts {
			busy = busy || !r.done.Load()
		}
		x.mu.Unlock()
		if !busy && i >= 3 {
			break
		}
	}
	x.mu.Lock()
	for _, r := range x.acts {
		if !r.done.Load() {
			e.Failf("hang", "%s did not return within 2 minutes", r.what)
		}
	}
	x.mu.Unlock()
	if e.Failed() {
		return
	}
	wg.Wait()
	w.Sleep(2*time.Second + 4*lat)

	// effects
	x.mu.Lock()
	sends, punches := x.sends, x.punch
	gone := map[string]bool{}
	for k := range x.gone {
		gone[k] = true
	}
	x.mu.Unlock()
	byAddr := map[string]*Node{}
	all := append(append([]*Node{}, x.nodes...), x.extra...)
	for _, n := range all {
		byAddr[n.Addr()] = n
	}
	got := map[string]int{}
	for _, n := range all {
		for _, ev := range n.Events() {
			if ev.Kind == "msg" && ev.Level == "node" {
				got[n.Addr()+"<"+ev.Addr+" "+string(ev.Data)]++
			}
			if ev.Kind == "punch" {
				got[n.Addr()+" "+string(ev.Data)]++
			}
		}
	}
	for _, s := range sends {
		k := got[s.to+"<"+s.from.Addr()+" "+s.data]
		if k > 1 {
			e.Failf("effect", "%s: the message was delivered %d times", s.what, k)
		}
		broken := gone[pairKey(s.from.Addr(), s.to)] || x.shut[s.from] || x.shut[byAddr[s.to]]
		if s.err == nil && !broken {
			if k != 1 {
				e.Failf("effect", "%s: a message sent at %v on the channel %s-%s was delivered %d times", s.what, w.Since(s.t), s.from.Name, byAddr[s.to].Name, k)
			}
			if s.deliv == 1 && s.delErr.Load() != nil {
				e.Failf("effect", "%s: the delivery callback reported %v", s.what, s.delErr.Load())
			}
		}
		if n := s.calls.Load(); s.err == nil && s.deliv > 0 && (n > 1 || n == 0 && time.Since(s.t) > 6*time.Second) {
			e.Failf("effect", "%s: the delivery callback was called %d times", s.what, n)
		}
	}
	for _, p := range punches {
		to := byAddr[p[:len(p)-len(p[indexByte(p, ' '):])]]
		if k := got[p]; k != 1 && !x.shut[to] {
			e.Failf("effect", "punch %q was delivered %d times", p, k)
		}
	}
	// notices; channels nobody closed live, those somebody closed ended at both ends
	for _, n := range all {
		seen := map[*tru.Channel]int{}
		closedN := 0
		for _, ev := range n.Events() {
			if ev.Kind == "err" && ev.Level == "node" {
				if ev.Ch == nil {
					closedN++
					continue
				}
				seen[ev.Ch]++
			}
		}
		for ch, k := range seen {
			if k != 1 {
				e.Failf("notice", "%s was told %d times that a channel is destroyed", n.Name, k)
			}
			if !gone[pairKey(n.Addr(), ch.Addr().String())] && !x.shut[n] && !x.shut[byAddr[ch.Addr().String()]] {
				e.Failf("ended", "%s: the channel with %s ended, nobody closed it", n.Name, byAddr[ch.Addr().String()].Name)
			}
		}
		if want := 0; !x.shut[n] && closedN != want || x.shut[n] && closedN != 1 {
			e.Failf("notice", "%s: told %d times that it is closed (closed: %v)", n.Name, closedN, x.shut[n])
		}
		for _, ch := range n.Channels() {
			if gone[pairKey(n.Addr(), ch.Addr().String())] || x.shut[byAddr[ch.Addr().String()]] || x.shut[n] {
				e.Failf("effect", "%s: the channel with %s was closed by one side and is still there", n.Name, byAddr[ch.Addr().String()].Name)
			}
		}
	}
	// every node still works
	x.mu.Lock()
	x.over = true
	x.mu.Unlock()
	probe := w.Node()
	for _, n := range x.nodes {
		if x.shut[n] {
			continue
		}
		l, err := w.Connect(probe, n, false)
		if err != nil || l.CB == nil {
			e.Failf("stuck", "connecting to %s afterwards: %v", n.Name, err)
			continue
		}
		for _, ch := range n.Channels() {
			x.send("afterwards", n, ch, 20, 0)
		}
		for _, m := range append(append([]*Node{}, all...), probe) {
			if ch := m.ChannelTo(n.Addr()); ch != nil && !x.shut[m] {
				x.send("afterwards", m, ch, 20, 0)
			}
		}
	}
	first := len(sends)
	w.Sleep(3*time.Second + 4*lat)
	byAddr[probe.Addr()] = probe
	for _, s := range x.sends[first:] {
		k := 0
		for _, ev := range byAddr[s.to].Events() {
			if ev.Kind == "msg" && ev.Level == "node" && string(ev.Data) == s.data {
				k++
			}
		}
		if k != 1 && s.err == nil {
			e.Failf("stuck", "a message from %s to %s sent afterwards was delivered %d times", s.from.Name, byAddr[s.to].Name, k)
		}
	}
	for k := range x.kinds {
		e.Class("%s", k)
	}
	if len(x.acts) > 0 {
		e.NonTrivial()
	}
}

func indexByte(s string, b byte) int {
	for i := range len(s) {
		if s[i] == b {
			return i
		}
	}
	return len(s)
}

func init() {
	register(&Spec{
		ID: "C17",
		Rule: "Two to four nodes with channels among them over an undisturbed network of generated latency, and a main program which sends, closes, punches and closes nodes. " +
			"Actions are bound to the n-th call of any callback of a node (message at node and channel level, end of a channel at both levels, end of the node, connection, delivery, delivery timeout, punch): sending on this or another channel with or without delivery callback, waiting for the delivery, closing channels, connecting to another node, statistics, enumeration (and sending or closing inside it), attributes, settings, punching, sleeping, closing the node; directly or in another goroutine the callback waits for. " +
			"Checked: every action returns and has its normal effect, channels nobody closed live, notices come once, and every node works afterwards. Non-trivial: an action ran.",
		Cases: map[Tier]int{Quick: 8000, Thorough: 100000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := CbCase{TickU: rapid.SampledFrom([]int{0, 0, 0, 50, 900, 5000}).Draw(rt, "tick"), LatU: rapid.SampledFrom([]int{0, 0, 100, 3000, 60_000}).Draw(rt, "lat"), Nodes: rapid.IntRange(2, 4).Draw(rt, "nodes"), ChanRd: rapid.Bool().Draw(rt, "chanrd")}
			seen := map[[2]int]bool{}
			for i := rapid.IntRange(1, 4).Draw(rt, "links"); i > 0; i-- {
				a := rapid.IntRange(0, c.Nodes-1).Draw(rt, "a")
				b := (a + rapid.IntRange(1, c.Nodes-1).Draw(rt, "b")) % c.Nodes
				if seen[[2]int{a, b}] || seen[[2]int{b, a}] {
					continue
				}
				seen[[2]int{a, b}] = true
				c.Links = append(c.Links, [2]int{a, b})
			}
			size := rapid.SampledFrom([]int{8, 8, 40, 500, 70_000})
			for i := rapid.IntRange(0, 5).Draw(rt, "nmain"); i > 0; i-- {
				c.Main = append(c.Main, CbMain{
					WaitU: rapid.SampledFrom([]int{0, 0, 10, 1000, 50_000, 400_000}).Draw(rt, "wait"),
					Op:    rapid.SampledFrom([]string{"send", "send", "send", "send", "send", "send", "send", "send", "punch", "close"}).Draw(rt, "op"),
					Link:  rapid.IntRange(0, len(c.Links)-1).Draw(rt, "link"), Side: rapid.IntRange(0, 1).Draw(rt, "side"),
					N: rapid.SampledFrom([]int{1, 1, 3, 20}).Draw(rt, "n"), Size: size.Draw(rt, "size"), Deliv: rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "deliv")})
			}
			for i := rapid.IntRange(1, 6).Draw(rt, "ntrig"); i > 0; i-- {
				t := CbTrigger{Nth: rapid.SampledFrom([]int{1, 1, 1, 2, 3, 7}).Draw(rt, "nth"),
					Kind: rapid.SampledFrom([]string{"msg", "msg", "msg", "chanmsg", "notice", "channotice", "closed", "connect", "connect", "delivered", "timeout", "punch"}).Draw(rt, "kind")}
				// the main program makes it happen
				li := rapid.IntRange(0, len(c.Links)-1).Draw(rt, "tlink")
				side := rapid.IntRange(0, 1).Draw(rt, "tside")
				m := CbMain{Op: "send", Link: li, Side: 1 - side, N: t.Nth, Size: size.Draw(rt, "tsize"), Deliv: rapid.SampledFrom([]int{0, 1}).Draw(rt, "tdeliv"),
					WaitU: rapid.SampledFrom([]int{0, 0, 10, 1000, 50_000, 400_000}).Draw(rt, "twait")}
				switch t.Kind {
				case "chanmsg", "channotice":
					c.ChanRd, side = true, 0
					m.Side = 1
				case "connect":
					side, t.Nth, m.Op = 1, 1, ""
				case "delivered", "timeout":
					m.Side, m.Deliv = side, 1
					if t.Kind == "timeout" {
						m.Deliv, c.LatU = 2, max(c.LatU, 100)
					}
				case "punch":
					m.Op = "punch"
				case "closed":
					m.Op, m.Side = "nodeclose", side
				}
				if t.Kind == "notice" || t.Kind == "channotice" {
					m.Op, t.Nth = "close", 1
				}
				if m.Op == "punch" || t.Kind == "closed" {
					t.Nth = 1
				}
				t.Node = c.Links[li][side]
				if m.Op != "" {
					at := rapid.IntRange(0, len(c.Main)).Draw(rt, "at")
					c.Main = append(c.Main[:at], append([]CbMain{m}, c.Main[at:]...)...)
				}
				ops := []string{"send", "send", "send", "send-wait", "close", "connect", "connect", "stat", "foreach", "foreach-send", "foreach-close", "attrs", "punch", "setpunch", "sleep"}
				if rapid.IntRange(0, 3).Draw(rt, "mayclose") == 0 {
					ops = append(ops, "nodeclose", "nodeclose")
				}
				for j := rapid.IntRange(1, 4).Draw(rt, "nacts"); j > 0; j-- {
					t.Acts = append(t.Acts, CbAction{Op: rapid.SampledFrom(ops).Draw(rt, "op"), Chan: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "chan"), N: rapid.SampledFrom([]int{1, 2, 3, 12, 50}).Draw(rt, "n"),
						Size: size.Draw(rt, "size"), Deliv: rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "deliv"), Go: rapid.IntRange(0, 3).Draw(rt, "go") == 0})
				}
				c.Trig = append(c.Trig, t)
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runCallbacks(e, decode[CbCase](raw)) },
	})
}
